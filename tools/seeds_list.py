P = S + "state/presale.rs"; F = S + "presale_mode_handler/fixed_price_presale.rs"; I = S + "instructions/"

seed("early_end_release", "C05", [(P, '''        let duration_until_immediate_release = self
            .immediate_release_timestamp
            .saturating_sub(self.presale_end_time);

        self.presale_end_time = new_presale_end_time;
''', '''        self.presale_end_time = new_presale_end_time;

        let duration_until_immediate_release = self
            .immediate_release_timestamp
            .saturating_sub(self.presale_end_time);
''')], '''
    let mut s = Sim::new();
    let mut p = params(2, 0, 500, 1000, vec![registry(1000, 1, 1000, 0)]);
    p.locked_vesting_params.immediately_release_bps = 2000;
    p.locked_vesting_params.vest_duration = 10_000;
    p.locked_vesting_params.immediate_release_timestamp = p.presale_params.presale_end_time + 5;
    must(s.initialize(p), "init");
    let a = s.buyer(1, 10_000);
    must(s.open(&a), "open");
    s.at(10);
    must(s.deposit(&a, 1000), "deposit");
    check(s.sale().presale_end_time == T0 as u64 + 10, "the sale ends when its cap is reached");
    check(s.sale().immediate_release_timestamp == T0 as u64 + 15, "the immediate release keeps its distance to the end");
    s.at(15);
    must(s.claim(&a), "claim");
    check(s.bal(&a.base) >= 200, "the immediate part is claimable 5 s after the early end");
''', "a first-come or fixed-price sale with an immediate release after its end, filled early",
"the immediate release time is not moved along when a filled sale ends early")

seed("vest_zero_early_end", "C05", [(P, '''        self.vesting_start_time = vesting_start_time;
        self.vesting_end_time = vesting_end_time;

        self.immediate_release_timestamp = self
''', '''        if self.vest_duration > 0 {
            self.vesting_start_time = vesting_start_time;
            self.vesting_end_time = vesting_end_time;
        }

        self.immediate_release_timestamp = self
''')], '''
    let mut s = Sim::new();
    let mut p = params(2, 0, 500, 1000, vec![registry(1000, 1, 1000, 0)]);
    p.locked_vesting_params.lock_duration = 50;
    must(s.initialize(p), "init");
    let a = s.buyer(1, 10_000);
    must(s.open(&a), "open");
    s.at(10);
    must(s.deposit(&a, 1000), "deposit");
    s.at(60);
    must(s.claim(&a), "claim");
    check(s.bal(&a.base) == 1000, "all tokens are released when the lock after the early end is over");
''', "a locked sale without vesting that is filled before its end",
"the vesting schedule is not moved when a lock-only sale ends early")

seed("failed_fee_refund", "C08", [(P, '''                (escrow.total_deposit, escrow.total_deposit_fee)
            } else {''', '''                if escrow.total_deposit > 0 {
                    (escrow.total_deposit, escrow.total_deposit_fee)
                } else {
                    (0, 0)
                }
            } else {''')], '''
    let mut s = Sim::new();
    must(s.initialize(params(1, 0, 500, 1000, vec![registry(1000, 1, 1000, 500)])), "init");
    let a = s.buyer(1, 10_000);
    must(s.open(&a), "open");
    s.at(10);
    must(s.deposit(&a, 400), "deposit");
    must(s.withdraw(&a, 400), "withdraw");
    let fee = s.escrow(&a).total_deposit_fee;
    check(fee > 0, "a fee was charged");
    s.at(2000);
    must(s.refund(&a), "refund");
    check(s.bal(&a.quote) == 10_000, "the fee is paid back after a failed sale");
''', "a buyer who deposits with a fee, withdraws everything, and the sale then fails",
"the deposit fee of a buyer without a remaining deposit is not refunded after a failed sale")

seed("close_with_fee", "C13", [(I + "process_close_escrow.rs", '''        escrow.total_deposit == 0 && escrow.total_deposit_fee == 0,
        PresaleError''', '''        escrow.total_deposit == 0,
        PresaleError''')], '''
    let mut s = Sim::new();
    must(s.initialize(params(1, 0, 500, 1000, vec![registry(1000, 1, 1000, 500)])), "init");
    let a = s.buyer(1, 10_000);
    must(s.open(&a), "open");
    s.at(10);
    must(s.deposit(&a, 400), "deposit");
    must(s.withdraw(&a, 400), "withdraw");
    check(!s.close(&a).ok, "an escrow with a refundable fee cannot be closed");
''', "deposit with fee, full withdrawal, closing the escrow while the sale is ongoing",
"an escrow that still holds a refundable fee can be closed")

seed("registry_quota", "C02", [(F, '''        let registry_remaining_base_token =
            presale_registry.presale_supply.safe_sub(total_token_sold)?;
''', '''        let registry_remaining_base_token = presale.presale_supply.safe_sub(total_token_sold)?;
''')], '''
    let mut s = Sim::new();
    must(s.fixed_params(1u128 << 64, 0), "fixed");
    must(s.initialize(params(0, 2, 10, 1000, vec![registry(100, 1, 1000, 0), registry(2000, 1, 1000, 0)])), "init");
    let mut a = s.buyer(1, 10_000);
    must(s.open_in(&mut a, 0, 1000), "open");
    s.at(10);
    must(s.deposit(&a, 500), "deposit");
    check(s.escrow(&a).total_deposit <= 100, "a deposit never buys more than its registry's supply");
''', "a fixed-price sale with two registries and a deposit larger than the first one's supply is worth",
"the remaining quota of a registry is computed from the whole sale's supply")

seed("empty_registry_fee", "C11", [(P, '''                        break;
                    }

                    let RemainingQuote''', '''                        break;
                    }

                    // Nothing was bought in this registry
                    if registry.total_deposit == 0 {
                        continue;
                    }

                    let RemainingQuote''')], '''
    let mut s = Sim::new();
    must(s.initialize(params(1, 2, 100, 1000, vec![registry(1000, 1, 1000, 500), registry(1000, 1, 1000, 500)])), "init");
    let (mut a, mut b) = (s.buyer(1, 10_000), s.buyer(2, 10_000));
    must(s.open_in(&mut a, 0, 1000), "open");
    must(s.open_in(&mut b, 1, 1000), "open");
    s.at(10);
    must(s.deposit(&a, 500), "deposit");
    must(s.withdraw(&a, 500), "withdraw");
    must(s.deposit(&b, 500), "deposit");
    s.at(2000);
    let fees = s.sale().total_deposit_fee;
    must(s.collect_fee(), "collect");
    check(s.bal(&s.creator_quote) == fees, "the creator collects all fees kept");
''', "a pro-rata sale with a registry whose deposits were all withdrawn, fees charged before",
"fees of a registry without remaining deposits are never collected")

seed("sold_break", "C12", [(S + "presale_mode_handler/mod.rs", '''        if registry.total_deposit == 0 {
            continue;
        }
''', '''        if registry.total_deposit == 0 {
            break;
        }
''')], '''
    let mut s = Sim::new();
    must(s.initialize(params(1, 2, 100, 1000, vec![registry(1000, 1, 1000, 0), registry(3000, 1, 1000, 0)])), "init");
    let mut b = s.buyer(2, 10_000);
    must(s.open_in(&mut b, 1, 1000), "open");
    s.at(10);
    must(s.deposit(&b, 500), "deposit");
    s.at(2000);
    must(s.unsold(), "unsold");
    check(s.bal(&s.creator_base) == 1000, "only the first registry's tokens are unsold");
    must(s.claim(&b), "claim");
''', "a sale with an empty registry before one that has deposits",
"registries after an empty one count as unsold and their tokens leave the vault before being claimed")

seed("refund_other_sale", "C16", [(I + "process_withdraw_remaining_quote.rs", '''        has_one = presale,
        has_one = owner
''', '''        has_one = owner
''')], '''
    let mut s = Sim::new();
    must(s.initialize(params(1, 0, 5000, 9000, vec![registry(1000, 1, 9000, 0)])), "init");
    // a second sale of the same tokens, with an honest buyer
    let mut s2 = Sim { w: Default::default(), base: key(77), presale: key(0), base_vault: key(0), quote_vault: key(0), ..Sim::new() };
    s2.presale = pda(&[b"presale", s2.base.as_ref(), s2.base_mint.as_ref(), s2.quote_mint.as_ref()]);
    s2.base_vault = pda(&[b"base_vault", s2.presale.as_ref()]);
    s2.quote_vault = pda(&[b"quote_vault", s2.presale.as_ref()]);
    s2.w = s.w.clone();
    wallet(&mut s2.w, key(77));
    must(s2.initialize(params(1, 0, 5000, 9000, vec![registry(1000, 1, 9000, 0)])), "init 2");
    let b = s2.buyer(2, 10_000);
    must(s2.open(&b), "open");
    s2.at(10);
    must(s2.deposit(&b, 700), "deposit");
    s.w = s2.w.clone();
    let a = s.buyer(1, 10_000);
    must(s.open(&a), "open");
    s.at(10);
    must(s.deposit(&a, 600), "deposit");
    s.at(2000);
    // the first sale's escrow presented to the second sale
    s2.w = s.w.clone();
    check(!s2.refund(&a).ok, "an escrow is refunded only by its own sale");
''', "two failed sales of the same quote token and an escrow of one used with the other",
"the refund no longer checks that the escrow belongs to the sale")

seed("creator_amount", "C10", [(I + "process_creator_withdraw.rs", '''                presale.total_deposit.min(presale.presale_maximum_cap),
''', '''                presale
                    .total_deposit
                    .safe_sub(presale.total_refunded_quote_token)?
                    .min(presale.presale_maximum_cap),
''')], '''
    let mut s = Sim::new();
    must(s.initialize(params(1, 0, 500, 1000, vec![registry(1000, 1, 1000, 1000)])), "init");
    let bs: Vec<_> = (1..4).map(|i| s.buyer(i, 10_000)).collect();
    for b in &bs { must(s.open(b), "open"); }
    s.at(10);
    for b in &bs { must(s.deposit(b, 1000), "deposit"); }
    s.at(2000);
    for b in &bs { must(s.refund(b), "refund"); }
    must(s.creator_withdraw(false), "creator");
    check(s.bal(&s.creator_quote) == 1000, "the creator gets min(deposits, maximum cap)");
''', "an oversubscribed pro-rata sale with fees whose buyers take refunds before the creator withdraws",
"the creator's proceeds shrink by the fees refunded to buyers")

seed("root_other_sale", "C14", [(I + "create_escrow/process_create_permissioned_escrow_with_merkle_proof.rs", '''    #[account(has_one = presale)]
    pub merkle_root_config''', '''    pub merkle_root_config''')], '''
    let mut s = Sim::new();
    must(s.initialize(params(2, 1, 500, 9000, vec![registry(1000, 1, 9000, 0)])), "init");
    let mut s2 = Sim { w: Default::default(), base: key(77), presale: key(0), base_vault: key(0), quote_vault: key(0), ..Sim::new() };
    s2.presale = pda(&[b"presale", s2.base.as_ref(), s2.base_mint.as_ref(), s2.quote_mint.as_ref()]);
    s2.base_vault = pda(&[b"base_vault", s2.presale.as_ref()]);
    s2.quote_vault = pda(&[b"quote_vault", s2.presale.as_ref()]);
    s2.creator = key(78);
    s2.w = s.w.clone();
    wallet(&mut s2.w, key(77));
    wallet(&mut s2.w, key(78));
    must(s2.initialize(params(2, 1, 500, 9000, vec![registry(1000, 1, 9000, 0)])), "init 2");
    let mut a = s2.buyer(1, 10_000);
    use anchor_lang::solana_program::hash::hashv;
    let leaf = hashv(&[&a.owner.to_bytes(), &[0u8], &9000u64.to_le_bytes()]);
    let root = hashv(&[&[0u8], &leaf.to_bytes()]).to_bytes();
    must(s2.root(root, 1), "root of the second sale");
    must(s2.open_proof(&mut a, 0, 9000, 1, vec![]), "open in the second sale");
    // the second sale's root presented to the first sale
    s.w = s2.w.clone();
    let c = pda(&[b"merkle_root", s2.presale.as_ref(), &1u64.to_le_bytes()]);
    a.escrow = s.escrow_key(a.owner, 0);
    use anchor_lang::InstructionData;
    let d = presale::instruction::CreatePermissionedEscrowWithMerkleProof {
        params: presale::CreatePermissionedEscrowWithMerkleProofParams { proof: vec![], registry_index: 0, deposit_cap: 9000, padding: [0; 32] },
    };
    let v = vec![m(s.presale), m(a.escrow), r(a.owner), r(c), ms(s.payer), r(anchor_lang::solana_program::system_program::ID),
        r(pda(&[b"__event_authority"])), r(presale::ID)];
    check(!s.w.run(&v, &d.data()).ok, "a root of another sale admits nobody");
''', "a root registered by an attacker's own sale presented to another merkle-whitelisted sale",
"a whitelist proof is accepted against a root of any sale")

seed("withdraw_below_min", "C04", [(I + "process_withdraw.rs", '''    // 5. Update escrow and presale state
    presale_mode_handler.process_withdraw(&mut presale, &mut escrow, suggested_withdraw_amount)?;

    let presale_registry = presale.get_presale_registry(escrow.registry_index.into())?;
    presale_registry.validate_escrow_deposit(&escrow)?;
''', '''    // 5. Ensure the escrow is within the buyer limits
    let presale_registry = presale.get_presale_registry(escrow.registry_index.into())?;
    presale_registry.validate_escrow_deposit(&escrow)?;

    // 6. Update escrow and presale state
    presale_mode_handler.process_withdraw(&mut presale, &mut escrow, suggested_withdraw_amount)?;
''')], '''
    let mut s = Sim::new();
    must(s.initialize(params(1, 0, 500, 1000, vec![registry(1000, 100, 1000, 0)])), "init");
    let a = s.buyer(1, 10_000);
    must(s.open(&a), "open");
    s.at(10);
    must(s.deposit(&a, 150), "deposit");
    check(!s.withdraw(&a, 100).ok, "what remains is zero or at least the buyer minimum");
''', "a partial withdrawal that leaves less than the registry's buyer minimum",
"the buyer limits are checked before the withdrawal instead of after it")

seed("withdraw_event", "C26", [(I + "process_withdraw.rs", '''    let exclude_transfer_fee_amount_withdrawn = calculate_transfer_fee_excluded_amount(
        &ctx.accounts.quote_mint,
        suggested_withdraw_amount,
    )?
''', '''    let exclude_transfer_fee_amount_withdrawn = calculate_transfer_fee_excluded_amount(
        &ctx.accounts.quote_mint,
        max_amount,
    )?
''')], '''
    let mut s = Sim::new();
    must(s.fixed_params(5u128 << 64, 0), "fixed");
    must(s.initialize(params(0, 0, 10, 1000, vec![registry(1000, 5, 1000, 0)])), "init");
    let a = s.buyer(1, 10_000);
    must(s.open(&a), "open");
    s.at(10);
    must(s.deposit(&a, 100), "deposit");
    let before = s.bal(&a.quote);
    let o = s.withdraw(&a, 13);
    let got = s.bal(&a.quote) - before;
    let e = o.cpis.iter().filter(|c| c.program == presale::ID).last().expect("event").data.clone();
    // event: tag, discriminator, three keys, then the amount... wherever the amount is, it is in the data
    must(o, "withdraw");
    let has = |n: u64| e[16..].windows(8).any(|w| w == n.to_le_bytes());
    check(got == 10 && has(10) && !has(13), "the event reports the amount paid out");
''', "a fixed-price withdrawal whose requested amount is not a whole number of tokens",
"the withdrawal event reports the requested amount instead of the amount paid")

seed("fee_rounding", "C03", [(S + "state/presale_registry.rs", '''self.deposit_fee_bps, Rounding::Up)''', '''self.deposit_fee_bps, Rounding::Down)''')], '''
    let mut s = Sim::new();
    must(s.initialize(params(1, 0, 500, 1000, vec![registry(1000, 1, 1000, 100)])), "init");
    let a = s.buyer(1, 10_000);
    must(s.open(&a), "open");
    s.at(10);
    must(s.deposit(&a, 101), "deposit");
    check(s.escrow(&a).total_deposit_fee == 2, "the fee is rounded up");
''', "a deposit whose fee is not a whole number", "deposit fees are rounded down, so small deposits pay none")

seed("close_root_ongoing", "C23", [(I + "process_close_merkle_root_config.rs", '''        progress != PresaleProgress::Ongoing,
''', '''        progress != PresaleProgress::Ongoing || presale.total_escrow == 0,
''')], '''
    let mut s = Sim::new();
    must(s.initialize(params(2, 1, 500, 9000, vec![registry(1000, 1, 9000, 0)])), "init");
    must(s.root([3; 32], 1), "root");
    s.at(10);
    use anchor_lang::InstructionData;
    let c = pda(&[b"merkle_root", s.presale.as_ref(), &1u64.to_le_bytes()]);
    let v = vec![r(s.presale), m(c), m(s.payer), nrt::sim::s(s.creator), r(pda(&[b"__event_authority"])), r(presale::ID)];
    let o = s.w.run(&v, &presale::instruction::CloseMerkleRootConfig {}.data());
    check(!o.ok, "a root cannot be closed while the sale is ongoing");
''', "closing a root of an ongoing sale before any buyer has joined",
"the creator can remove the whitelist of an ongoing sale")

seed("refresh_touch", "C21", [(I + "process_refresh_escrow.rs", '''        presale_handler.update_pending_claim_amount(&presale, &mut escrow, current_timestamp)?;
    }
''', '''        presale_handler.update_pending_claim_amount(&presale, &mut escrow, current_timestamp)?;
    }

    escrow.update_last_refreshed_at(current_timestamp)?;
''')], '''
    let mut s = Sim::new();
    must(s.initialize(params(2, 0, 500, 1000, vec![registry(1000, 1, 1000, 0)])), "init");
    let a = s.buyer(1, 10_000);
    must(s.open(&a), "open");
    s.at(10);
    must(s.deposit(&a, 100), "deposit");
    let before = s.w.accs[&a.escrow].clone();
    must(s.refresh(&a), "refresh");
    check(before == s.w.accs[&a.escrow], "refreshing changes nothing while the sale is ongoing");
''', "refreshing an escrow while the sale is not completed", "refreshing writes the escrow in phases where it must not")

seed("registry_cap", "C17", [(I + "initialize_presale/params.rs", '''            self.immediately_release_bps <= MAX_FEE_BASIS_POINTS,
''', '''            self.immediately_release_bps <= MAX_FEE_BASIS_POINTS
                || self.immediate_release_timestamp == 0,
''')], '''
    let mut s = Sim::new();
    let mut p = params(2, 0, 500, 1000, vec![registry(1000, 1, 1000, 0)]);
    p.locked_vesting_params.immediately_release_bps = 10_001;
    p.locked_vesting_params.vest_duration = 10;
    check(!s.initialize(p).ok, "at most everything can be released immediately");
''', "a release rate above 100% given without a release time", "a sale whose tokens can never be claimed can be created")

seed("claim_over_supply", "C07", [(F, '''            calculate_token_bought(self.q_price, presale_registry.total_deposit)?
                .safe_cast()?
                .min(presale_registry.presale_supply);
''', '''            calculate_token_bought(self.q_price, presale_registry.total_deposit)?.safe_cast()?;
''')], '''
    let mut s = Sim::new();
    // a third of a quote unit per token: rounding up lets the registry take 34 quote, worth 102 tokens
    must(s.fixed_params((1u128 << 64) / 3, 0), "fixed");
    must(s.initialize(params(0, 2, 10, 60, vec![registry(100, 1, 60, 0), registry(100, 1, 60, 0)])), "init");
    let mut a = s.buyer(1, 10_000);
    must(s.open_in(&mut a, 0, 60), "open");
    s.at(10);
    for _ in 0..40 { let _ = s.deposit(&a, 60); }
    s.at(2000);
    must(s.claim(&a), "claim");
    check(s.bal(&a.base) <= 100, "claims of a registry never exceed its supply");
''', "a fixed-price registry sold out at a price whose last token rounds up",
"buyers of a sold-out registry can claim more than its supply, at the cost of other registries")

seed("second_escrow_fee", "C22", [(S + "state/presale_registry.rs", '''        escrow.withdraw(amount)?;
        self.total_deposit = self.total_deposit.safe_sub(amount)?;
''', '''        escrow.withdraw(amount)?;
        self.total_deposit = self.total_deposit.safe_sub(amount)?;
        if escrow.total_deposit == 0 {
            self.total_deposit_fee = self.total_deposit_fee.saturating_sub(escrow.total_deposit_fee);
        }
''')], '''
    let mut s = Sim::new();
    must(s.initialize(params(1, 0, 500, 1000, vec![registry(1000, 1, 1000, 500)])), "init");
    let a = s.buyer(1, 10_000);
    must(s.open(&a), "open");
    s.at(10);
    must(s.deposit(&a, 400), "deposit");
    must(s.withdraw(&a, 400), "withdraw");
    check(s.sale().presale_registries[0].total_deposit_fee == s.sale().total_deposit_fee, "registry and sale fees agree");
''', "a full withdrawal in a registry with fees", "the registry's fee total no longer matches the sale's and the escrows'")

seed("epoch_fee", "C20", [(S + "token2022.rs", '''let epoch = Clock::get()?.epoch;''', '''let epoch = Clock::get()?.leader_schedule_epoch;''')], '''
    use anchor_spl::token_2022::spl_token_2022;
    let mut s = Sim::with(spl_token_2022::ID, spl_token_2022::ID);
    // rate 10% until epoch 4, 20% from epoch 5 on
    s.quote_mint = fee_mint(&mut s.w, s.quote_mint, 1000, 2000, 5);
    let k = s.creator_quote;
    fee_token(&mut s.w, k, s.quote_mint, s.creator, 0);
    must(s.initialize(params(1, 0, 500, 1000, vec![registry(1000, 1, 1000, 0)])), "init");
    let a = s.buyer(1, 10_000);
    fee_token(&mut s.w, a.quote, s.quote_mint, a.owner, 10_000);
    must(s.open(&a), "open");
    s.at(10);
    s.w.epoch = 4;
    must(s.deposit(&a, 900), "deposit");
    check(s.bal(&s.quote_vault) == s.escrow(&a).total_deposit, "the vault receives exactly the credited amount");
''', "a Token-2022 quote mint whose transfer fee change is scheduled for a later epoch",
"the announced fee is used before it is in force, so payer pays too much")

seed("gross_up_without_fee", "C01", [(I + "process_deposit.rs", '''    let include_transfer_fee_deposit_amount = calculate_transfer_fee_included_amount(
        &ctx.accounts.quote_mint,
        included_fee_deposit_amount,
    )?
    .amount;
''', '''    let include_transfer_fee_deposit_amount = calculate_transfer_fee_included_amount(
        &ctx.accounts.quote_mint,
        suggested_deposit_amount,
    )?
    .amount
    .safe_add(included_fee_deposit_amount.safe_sub(suggested_deposit_amount)?)?;
''')], '''
    use anchor_spl::token_2022::spl_token_2022;
    let mut s = Sim::with(spl_token_2022::ID, spl_token_2022::ID);
    s.quote_mint = fee_mint(&mut s.w, s.quote_mint, 1000, 1000, 0);
    let k = s.creator_quote;
    fee_token(&mut s.w, k, s.quote_mint, s.creator, 0);
    must(s.initialize(params(1, 0, 500, 1000, vec![registry(1000, 1, 1000, 500)])), "init");
    let a = s.buyer(1, 10_000);
    fee_token(&mut s.w, a.quote, s.quote_mint, a.owner, 10_000);
    must(s.open(&a), "open");
    s.at(10);
    must(s.deposit(&a, 900), "deposit");
    let e = s.escrow(&a);
    check(s.bal(&s.quote_vault) == e.total_deposit + e.total_deposit_fee, "the vault receives the credited deposit and fee");
''', "a quote mint with a transfer fee together with a registry that charges a deposit fee",
"the transfer fee on the deposit-fee part is not charged, so the vault receives less than is credited")

seed("drip_at_start", "C06", [(S + "math/claim_math.rs", '''    if current_timestamp < vesting_start_time {
        return Ok(0);''', '''    if current_timestamp <= vesting_start_time {
        return Ok(0);''')], '''
    let mut s = Sim::new();
    let mut p = params(2, 0, 500, 1000, vec![registry(1000, 1, 1000, 0)]);
    p.locked_vesting_params.lock_duration = 50;
    must(s.initialize(p), "init");
    let a = s.buyer(1, 10_000);
    must(s.open(&a), "open");
    s.at(10);
    must(s.deposit(&a, 1000), "deposit");
    let t = s.sale().vesting_start_time as i64 - T0;
    s.at(t);
    s.claim(&a);
    check(s.bal(&a.base) == 1000, "a lock without vesting releases everything when it is over");
''', "a lock-only sale and a claim in the very second the lock ends", "a claim at the end of the lock pays nothing")

seed("proof_prefix", "C15", [(I + "create_escrow/process_create_permissioned_escrow_with_merkle_proof.rs", '''    for proof_element in proof.into_iter() {
''', '''    for proof_element in proof.into_iter() {
        // Reached the root, no need to hash further
        if computed_hash == root {
            return true;
        }
''')], '''
    use anchor_lang::solana_program::hash::hashv;
    let mut s = Sim::new();
    must(s.initialize(params(1, 1, 500, 1000, vec![registry(1000, 1, 1000, 0)])), "init");
    let leaf = |o: &anchor_lang::prelude::Pubkey, cap: u64| {
        let n = hashv(&[o.as_ref(), &[0u8], &cap.to_le_bytes()]);
        hashv(&[&[0u8], &n.to_bytes()]).to_bytes()
    };
    let mut a = s.buyer(1, 10_000);
    let mut b = s.buyer(2, 10_000);
    let (x, y) = (leaf(&a.owner, 700), leaf(&b.owner, 800));
    let root = if x <= y { hashv(&[&[1u8], &x, &y]) } else { hashv(&[&[1u8], &y, &x]) }.to_bytes();
    must(s.root(root, 0), "root");
    check(!s.open_proof(&mut a, 0, 700, 0, vec![y, [7; 32]]).ok, "a proof that does not fold to the root is refused");
    must(s.open_proof(&mut b, 0, 800, 0, vec![x]), "the issued proof");
''', "a proof with a surplus element after the root was reached", "a proof that does not fold to the root is accepted")

seed("registry_refund_up", "C09", [(S + "state/presale_registry.rs", '''            .safe_mul(self.total_deposit.into())?
            .safe_div(presale_total_deposit.into())?;
''', '''            .safe_mul(self.total_deposit.into())?
            .div_ceil(presale_total_deposit.into());
''')], '''
    let mut s = Sim::new();
    must(s.initialize(params(1, 2, 10, 100, vec![registry(100, 1, 100, 0), registry(100, 1, 100, 0), registry(100, 1, 100, 0)])), "init");
    let mut bs = vec![];
    for (i, n) in [(0u8, 67u64), (1, 67), (2, 67)] {
        let mut b = s.buyer(1 + i as u64, 10_000);
        must(s.open_in(&mut b, i, 100), "open");
        bs.push((b, n));
    }
    s.at(10);
    for (b, n) in &bs { must(s.deposit(b, *n), "deposit"); }
    s.at(2000);
    must(s.creator_withdraw(false), "proceeds");
    for (b, _) in &bs {
        let o = s.refund(b);
        check(o.ok, "the vault covers every refund next to the proceeds");
    }
''', "a pro-rata sale with several registries whose surplus does not divide evenly",
"the registries' shares of the surplus add up to more than the surplus, so the last buyer cannot be refunded")

seed("abs_timestamp", "C24", [(S + "math/safe_math.rs", '''try_into_impl!(i64, u64);
''', '''impl SafeCast<u64> for i64 {
    fn safe_cast(self) -> Result<u64, PresaleError> {
        Ok(self.unsigned_abs())
    }
}
''')], '''
    let mut s = Sim::new();
    must(s.initialize(params(1, 0, 500, 1000, vec![registry(1000, 1, 1000, 0)])), "init");
    let a = s.buyer(1, 10_000);
    must(s.open(&a), "open");
    s.at(-2 * T0 - 10);
    check(!s.deposit(&a, 500).ok, "a negative time fails and is not taken for a positive one");
''', "a cast of a negative number", "casting a negative number succeeds with another value")

seed("any_quote_vault", "C19", [(I + "process_deposit.rs", '''        has_one = quote_token_vault,
        has_one = quote_mint,
''', '''        has_one = quote_mint,
''')], '''
    let mut s = Sim::new();
    must(s.initialize(params(1, 0, 500, 1000, vec![registry(1000, 1, 1000, 0)])), "init");
    let a = s.buyer(1, 10_000);
    must(s.open(&a), "open");
    s.at(10);
    let own = token(&mut s.w, key(900), s.quote_program, s.quote_mint, a.owner, 0);
    let vault = s.quote_vault;
    s.quote_vault = own;
    let _ = s.deposit(&a, 500);
    check(s.sale().total_deposit == s.bal(&vault), "what is credited is in the vault");
''', "a deposit that names the buyer's own token account as the vault", "a deposit is credited although it never reached the vault")
