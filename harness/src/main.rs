//! replay: one JSON scenario per input line, one JSON outcome per output line.
use anchor_lang::prelude::*;
use anchor_lang::solana_program::instruction::AccountMeta;
use nrt::*;
use serde_json::{json, Map, Value};
use std::io::{BufRead, Write};

fn hx(s: &str) -> Vec<u8> {
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect()
}

fn xh(b: &[u8]) -> String {
    b.iter().map(|x| format!("{x:02x}")).collect()
}

fn pk(s: &str) -> Pubkey {
    Pubkey::new_from_array(hx(s).try_into().unwrap())
}

fn accs(w: &World) -> Value {
    let mut m = Map::new();
    for (k, a) in &w.accs {
        m.insert(xh(k.as_ref()), json!({"owner": xh(a.owner.as_ref()), "lamports": a.lamports, "data": xh(&a.data), "executable": a.executable}));
    }
    Value::Object(m)
}

fn main() {
    nrt::init();
    let out = std::io::stdout();
    for line in std::io::stdin().lock().lines() {
        let v: Value = serde_json::from_str(&line.unwrap()).unwrap();
        if let Some(s) = v.get("pda") {
            let seeds: Vec<Vec<u8>> = s.as_array().unwrap().iter().map(|x| hx(x.as_str().unwrap())).collect();
            let sl: Vec<&[u8]> = seeds.iter().map(|x| &x[..]).collect();
            let pid = v.get("program").map(|p| pk(p.as_str().unwrap())).unwrap_or(presale::ID);
            let (k, b) = Pubkey::find_program_address(&sl, &pid);
            writeln!(out.lock(), "{}", json!({"key": xh(k.as_ref()), "bump": b})).unwrap();
            continue;
        }
        let mut w = World { now: v["now"].as_i64().unwrap(), epoch: v["epoch"].as_u64().unwrap_or(0), ..Default::default() };
        for (k, a) in v["accs"].as_object().unwrap() {
            w.accs.insert(
                pk(k),
                Acc {
                    owner: pk(a["owner"].as_str().unwrap()),
                    lamports: a["lamports"].as_u64().unwrap(),
                    data: hx(a["data"].as_str().unwrap()),
                    executable: a["executable"].as_bool().unwrap_or(false),
                },
            );
        }
        let metas: Vec<AccountMeta> = v["metas"]
            .as_array()
            .unwrap()
            .iter()
            .map(|m| AccountMeta { pubkey: pk(m[0].as_str().unwrap()), is_signer: m[1].as_bool().unwrap(), is_writable: m[2].as_bool().unwrap() })
            .collect();
        let r = w.run(&metas, &hx(v["data"].as_str().unwrap()));
        let cpis: Vec<Value> = r
            .cpis
            .iter()
            .map(|c| {
                json!({"program": xh(c.program.as_ref()), "data": xh(&c.data), "signers": c.signers.iter().map(|k| xh(k.as_ref())).collect::<Vec<_>>(),
                       "metas": c.metas.iter().map(|m| json!([xh(m.0.as_ref()), m.1, m.2])).collect::<Vec<_>>()})
            })
            .collect();
        writeln!(out.lock(), "{}", json!({"ok": r.ok, "err": r.err, "code": r.code, "cpis": cpis, "accs": if r.ok { accs(&w) } else { Value::Null }})).unwrap();
    }
}
