//! Runs the repository's off-chain whitelist tree builder.
//! stdin, one tree per line: `version owner:registry:cap ...` (owner in hex);
//! stdout: `root account owner:registry:cap:proof,proof,... ...` or `error` / `panic`.
use merkle_tree::{config_merkle_tree::ConfigMerkleTree, tree_node::TreeNode};
use solana_program::pubkey::Pubkey;
use std::io::BufRead;

fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{:02x}", x)).collect()
}

fn unhex(s: &str) -> [u8; 32] {
    let mut o = [0u8; 32];
    for i in 0..32 {
        o[i] = u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap();
    }
    o
}

fn one(line: &str) -> String {
    let mut it = line.split(' ');
    let version: u64 = it.next().unwrap().parse().unwrap();
    let nodes: Vec<TreeNode> = it
        .map(|s| {
            let f: Vec<&str> = s.split(':').collect();
            TreeNode {
                escrow_owner: Pubkey::new_from_array(unhex(f[0])),
                registry_index: f[1].parse().unwrap(),
                deposit_cap: f[2].parse().unwrap(),
                proof: None,
            }
        })
        .collect();
    let owners: Vec<Pubkey> = nodes.iter().map(|n| n.escrow_owner).collect();
    match ConfigMerkleTree::new(nodes, version) {
        Err(_) => "error".to_string(),
        Ok(t) => {
            let presale = Pubkey::new_from_array([7u8; 32]);
            let program = Pubkey::new_from_array([9u8; 32]);
            let map = t.convert_to_hashmap();
            let mut s = format!("{} {}", hex(&t.merkle_root), hex(&t.get_merkle_root_config_pubkey(presale, &program).to_bytes()));
            for o in owners {
                let n = t.get_node(&o);
                assert!(map[&o] == n);
                let p: Vec<String> = n.proof.unwrap_or_default().iter().map(|h| hex(h)).collect();
                s += &format!(" {}:{}:{}:{}", hex(&n.escrow_owner.to_bytes()), n.registry_index, n.deposit_cap, p.join(","));
            }
            s
        }
    }
}

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    for l in std::io::stdin().lock().lines() {
        let l = l.unwrap();
        let r = std::panic::catch_unwind(|| one(&l)).unwrap_or("panic".to_string());
        println!("= {}", r);
    }
}
