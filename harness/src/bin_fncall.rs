//! fncall <function> <arguments...>: calls one arithmetic function of the program and prints its value, or "error".
//! Exit status 3: the function is not known here.
use ::presale::*;

macro_rules! arith {
    ($t:ty, $op:expr, $a:expr) => {{
        let x: $t = $a[0].parse().unwrap();
        let y = || -> $t { $a[1].parse().unwrap() };
        let s = || -> u32 { $a[1].parse().unwrap() };
        show(match $op {
            "safe_add" => x.safe_add(y()),
            "safe_sub" => x.safe_sub(y()),
            "safe_mul" => x.safe_mul(y()),
            "safe_div" => x.safe_div(y()),
            "safe_rem" => x.safe_rem(y()),
            "safe_shl" => x.safe_shl(s()),
            "safe_shr" => x.safe_shr(s()),
            _ => std::process::exit(3),
        })
    }};
}

fn show<T: ToString, E>(r: std::result::Result<T, E>) -> String {
    match r {
        Ok(v) => v.to_string(),
        Err(_) => "error".to_string(),
    }
}

fn main() {
    let a: Vec<String> = std::env::args().skip(1).collect();
    let name = a[0].as_str();
    let v = &a[1..];
    let n = |i: usize| -> u64 { v[i].parse().unwrap() };
    let h = |i: usize| -> u16 { v[i].parse().unwrap() };
    let out = if let Some(rest) = name.strip_prefix('<') {
        let ty = rest.split(' ').next().unwrap();
        let op = name.rsplit("::").next().unwrap();
        if op == "safe_cast" {
            let to = name.split("SafeCast<").nth(1).unwrap().split(">>").next().unwrap();
            match (ty, to.rsplit("::").next().unwrap()) {
                ("u128", "u64") => show(SafeCast::<u64>::safe_cast(v[0].parse::<u128>().unwrap())),
                ("i64", "u64") => show(SafeCast::<u64>::safe_cast(v[0].parse::<i64>().unwrap())),
                ("u8", "WhitelistMode") => show(SafeCast::<WhitelistMode>::safe_cast(v[0].parse::<u8>().unwrap()).map(|x| x as u8)),
                ("u8", "PresaleMode") => show(SafeCast::<PresaleMode>::safe_cast(v[0].parse::<u8>().unwrap()).map(|x| x as u8)),
                ("u8", "BoolType") => show(SafeCast::<BoolType>::safe_cast(v[0].parse::<u8>().unwrap()).map(|x| x as u8)),
                _ => std::process::exit(3),
            }
        } else {
            match ty {
                "u8" => arith!(u8, op, v),
                "u16" => arith!(u16, op, v),
                "u32" => arith!(u32, op, v),
                "u64" => arith!(u64, op, v),
                "u128" => arith!(u128, op, v),
                "usize" => arith!(usize, op, v),
                "i32" => arith!(i32, op, v),
                "i64" => arith!(i64, op, v),
                "i128" => arith!(i128, op, v),
                _ => std::process::exit(3),
            }
        }
    } else {
        match name.rsplit("::").next().unwrap() {
            "calculate_immediate_release_token" => show(calculate_immediate_release_token(n(0), h(1)).map(|r| format!("{},{}", r.immediate_released_amount, r.vested_amount))),
            "calculate_immediate_release_token_for_user" => show(calculate_immediate_release_token_for_user(n(0), n(1), n(2))),
            "calculate_dripped_amount_for_user" => show(calculate_dripped_amount_for_user(n(0), n(1), n(2), n(3), n(4), n(5))),
            "calculate_cumulative_claimable_amount_for_user" => {
                show(calculate_cumulative_claimable_amount_for_user(h(0), n(1), n(2), n(3), n(4), n(5), n(6), n(7)))
            }
            "calculate_deposit_fee_included_amount rounding up" => {
                show(calculate_deposit_fee_included_amount(n(0), h(1), Rounding::Up).map(|r| format!("{},{}", r.fee, r.amount_included_fee)))
            }
            "calculate_deposit_fee_included_amount rounding down" => {
                show(calculate_deposit_fee_included_amount(n(0), h(1), Rounding::Down).map(|r| format!("{},{}", r.fee, r.amount_included_fee)))
            }
            _ => std::process::exit(3),
        }
    };
    println!("{out}");
}
