use nrt::sim::*;
fn main() {
    for mode in 0..3u8 {
        let mut s = Sim::new();
        if mode == 0 { must(s.fixed_params(1u128 << 63, 0), "fixed"); }
        let mut p = params(mode, 2, 500, 1000, vec![registry(1000, 1, 1000, 100), registry(3000, 1, 1000, 250)]);
        p.locked_vesting_params.immediately_release_bps = 2000;
        p.locked_vesting_params.lock_duration = 10;
        p.locked_vesting_params.vest_duration = 1000;
        p.locked_vesting_params.immediate_release_timestamp = p.presale_params.presale_end_time + 5;
        must(s.initialize(p), "init");
        let mut a = s.buyer(1, 10_000);
        let mut b = s.buyer(2, 10_000);
        must(s.open_in(&mut a, 0, 1000), "open");
        must(s.open_in(&mut b, 1, 900), "open");
        s.at(10);
        must(s.deposit(&a, 400), "dep");
        if mode != 2 { must(s.withdraw(&a, 100), "wd"); }
        must(s.deposit(&b, 800), "dep");
        println!("mode {mode} deposits {} fee {} vault {}", s.sale().total_deposit, s.sale().total_deposit_fee, s.bal(&s.quote_vault));
        s.at(1500);
        for x in [&a, &b] {
            let o = s.claim(x); println!(" claim {} {} -> {}", o.ok, o.err, s.bal(&x.base));
            let o = s.refund(x); println!(" refund {} {} -> {}", o.ok, o.err, s.bal(&x.quote));
        }
        must(s.refresh(&a), "refresh");
        s.at(5000);
        for x in [&a, &b] {
            let o = s.claim(x); println!(" claim {} {} -> {}", o.ok, o.err, s.bal(&x.base));
        }
        must(s.creator_withdraw(false), "cw");
        must(s.collect_fee(), "fee");
        let o = s.unsold(); println!(" unsold {} {}", o.ok, o.err);
        must(s.close(&a), "close");
        println!(" quote vault {} base vault {} sale escrows {}", s.bal(&s.quote_vault), s.bal(&s.base_vault), s.sale().total_escrow);
    }
}
