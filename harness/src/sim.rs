//! A presale with its mints, vaults and people, driven through the program's own instructions.
use crate::kit::*;
use crate::*;
use anchor_lang::InstructionData;
use presale::instruction as ix;

pub fn no_remaining() -> presale::RemainingAccountsInfo {
    presale::RemainingAccountsInfo { slices: vec![] }
}

pub struct Sim {
    pub w: World,
    pub base_program: Pubkey,
    pub quote_program: Pubkey,
    pub base_mint: Pubkey,
    pub quote_mint: Pubkey,
    pub base: Pubkey,
    pub creator: Pubkey,
    pub payer: Pubkey,
    pub presale: Pubkey,
    pub authority: Pubkey,
    pub base_vault: Pubkey,
    pub quote_vault: Pubkey,
    pub payer_base: Pubkey,
    pub creator_quote: Pubkey,
    pub creator_base: Pubkey,
}

pub fn m(k: Pubkey) -> AccountMeta { AccountMeta::new(k, false) }
pub fn r(k: Pubkey) -> AccountMeta { AccountMeta::new_readonly(k, false) }
pub fn s(k: Pubkey) -> AccountMeta { AccountMeta::new_readonly(k, true) }
pub fn ms(k: Pubkey) -> AccountMeta { AccountMeta::new(k, true) }

fn ev(mut v: Vec<AccountMeta>) -> Vec<AccountMeta> {
    v.push(r(pda(&[b"__event_authority"])));
    v.push(r(presale::ID));
    v
}

pub const T0: i64 = 1_000_000;

pub fn registry(supply: u64, min: u64, max: u64, fee: u16) -> presale::PresaleRegistryArgs {
    presale::PresaleRegistryArgs { buyer_minimum_deposit_cap: min, buyer_maximum_deposit_cap: max, presale_supply: supply, deposit_fee_bps: fee, padding: [0; 32] }
}

/// mode: 0 fixed price, 1 pro rata, 2 first come; whitelist: 0 none, 1 merkle, 2 operator
pub fn params(mode: u8, whitelist: u8, min: u64, max: u64, regs: Vec<presale::PresaleRegistryArgs>) -> presale::InitializePresaleArgs {
    presale::InitializePresaleArgs {
        presale_params: presale::PresaleArgs {
            presale_maximum_cap: max,
            presale_minimum_cap: min,
            presale_start_time: T0 as u64,
            presale_end_time: T0 as u64 + 1000,
            whitelist_mode: whitelist,
            presale_mode: mode,
            unsold_token_action: 0,
            disable_earlier_presale_end_once_cap_reached: 0,
            padding: [0; 30],
        },
        locked_vesting_params: Default::default(),
        padding: [0; 32],
        presale_registries: regs,
    }
}

impl Sim {
    pub fn new() -> Sim {
        Sim::with(spl_token::ID, spl_token::ID)
    }

    pub fn with(base_program: Pubkey, quote_program: Pubkey) -> Sim {
        init();
        let mut w = World::default();
        w.now = T0;
        programs(&mut w);
        let (base, creator, payer) = (key(1), wallet(&mut w, key(2)), wallet(&mut w, key(3)));
        wallet(&mut w, base);
        let base_mint = mint(&mut w, key(10), base_program);
        let quote_mint = mint(&mut w, key(11), quote_program);
        let presale = pda(&[b"presale", base.as_ref(), base_mint.as_ref(), quote_mint.as_ref()]);
        let authority = pda(&[b"presale_authority"]);
        let payer_base = token(&mut w, key(12), base_program, base_mint, payer, u64::MAX / 2);
        let creator_quote = token(&mut w, key(13), quote_program, quote_mint, creator, 0);
        let creator_base = anchor_spl::associated_token::get_associated_token_address_with_program_id(&creator, &base_mint, &base_program);
        token(&mut w, creator_base, base_program, base_mint, creator, 0);
        Sim {
            w, base_program, quote_program, base_mint, quote_mint, base, creator, payer, presale, authority,
            base_vault: pda(&[b"base_vault", presale.as_ref()]),
            quote_vault: pda(&[b"quote_vault", presale.as_ref()]),
            payer_base, creator_quote, creator_base,
        }
    }

    pub fn at(&mut self, t: i64) -> &mut Sim {
        self.w.now = T0 + t;
        self
    }

    pub fn fixed_params(&mut self, q_price: u128, disable_withdraw: u8) -> Outcome {
        let p = pda(&[b"fixed_price_param", self.presale.as_ref()]);
        let d = ix::InitializeFixedPricePresaleArgs {
            params: presale::InitializeFixedPricePresaleExtraArgs { presale: self.presale, disable_withdraw, q_price, padding1: [0; 8] },
        };
        self.w.run(&ev(vec![m(p), r(self.creator), ms(self.payer), r(system_program::ID)]), &d.data())
    }

    pub fn initialize(&mut self, p: presale::InitializePresaleArgs) -> Outcome {
        let fixed = p.presale_params.presale_mode == 0;
        let d = ix::InitializePresale { params: p, remaining_account_info: no_remaining() };
        let mut v = ev(vec![
            r(self.base_mint), m(self.presale), r(self.authority), r(self.quote_mint), m(self.base_vault), m(self.quote_vault),
            m(self.payer_base), r(self.creator), s(self.base), ms(self.payer), r(self.base_program), r(self.quote_program), r(system_program::ID),
        ]);
        if fixed {
            v.push(r(pda(&[b"fixed_price_param", self.presale.as_ref()])));
        }
        self.w.run(&v, &d.data())
    }

    pub fn escrow_key(&self, owner: Pubkey, reg: u8) -> Pubkey {
        pda(&[b"escrow", self.presale.as_ref(), owner.as_ref(), &[reg]])
    }

    /// a funded buyer with quote and base token accounts
    pub fn buyer(&mut self, n: u64, quote: u64) -> Buyer {
        let owner = wallet(&mut self.w, key(100 + 10 * n));
        let q = token(&mut self.w, key(101 + 10 * n), self.quote_program, self.quote_mint, owner, quote);
        let b = token(&mut self.w, key(102 + 10 * n), self.base_program, self.base_mint, owner, 0);
        Buyer { owner, quote: q, base: b, escrow: self.escrow_key(owner, 0), reg: 0 }
    }

    pub fn open(&mut self, b: &Buyer) -> Outcome {
        let v = ev(vec![m(self.presale), m(b.escrow), r(b.owner), ms(self.payer), r(system_program::ID)]);
        self.w.run(&v, &ix::CreatePermissionlessEscrow {}.data())
    }

    pub fn operator(&mut self, owner: Pubkey) -> Outcome {
        let o = pda(&[b"operator", self.creator.as_ref(), owner.as_ref()]);
        self.w.run(&ev(vec![m(o), r(owner), ms(self.creator), r(system_program::ID)]), &ix::CreateOperator {}.data())
    }

    /// escrow in a sale whitelisted by operator (appointed here by the creator itself)
    pub fn open_in(&mut self, b: &mut Buyer, reg: u8, cap: u64) -> Outcome {
        b.reg = reg;
        b.escrow = self.escrow_key(b.owner, reg);
        let o = pda(&[b"operator", self.creator.as_ref(), self.creator.as_ref()]);
        if !self.w.accs.contains_key(&o) {
            let c = self.creator;
            let x = self.operator(c);
            assert!(x.ok, "operator {}", x.err);
        }
        let d = ix::CreatePermissionedEscrowWithCreator {
            params: presale::CreatePermissionedEscrowWithCreatorParams { registry_index: reg, deposit_cap: cap, padding: [0; 32] },
        };
        let v = ev(vec![m(self.presale), m(b.escrow), r(b.owner), r(o), s(self.creator), ms(self.payer), r(system_program::ID)]);
        self.w.run(&v, &d.data())
    }

    pub fn root(&mut self, root: [u8; 32], version: u64) -> Outcome {
        let c = pda(&[b"merkle_root", self.presale.as_ref(), &version.to_le_bytes()]);
        let d = ix::CreateMerkleRootConfig { params: presale::CreateMerkleRootConfigParams { root, version } };
        self.w.run(&ev(vec![r(self.presale), m(c), ms(self.creator), r(system_program::ID)]), &d.data())
    }

    pub fn open_proof(&mut self, b: &mut Buyer, reg: u8, cap: u64, version: u64, proof: Vec<[u8; 32]>) -> Outcome {
        b.reg = reg;
        b.escrow = self.escrow_key(b.owner, reg);
        let c = pda(&[b"merkle_root", self.presale.as_ref(), &version.to_le_bytes()]);
        let d = ix::CreatePermissionedEscrowWithMerkleProof {
            params: presale::CreatePermissionedEscrowWithMerkleProofParams { proof, registry_index: reg, deposit_cap: cap, padding: [0; 32] },
        };
        let v = ev(vec![m(self.presale), m(b.escrow), r(b.owner), r(c), ms(self.payer), r(system_program::ID)]);
        self.w.run(&v, &d.data())
    }

    pub fn deposit(&mut self, b: &Buyer, max_amount: u64) -> Outcome {
        let v = ev(vec![m(self.presale), m(self.quote_vault), r(self.quote_mint), m(b.escrow), m(b.quote), s(b.owner), r(self.quote_program)]);
        self.w.run(&v, &ix::Deposit { max_amount, remaining_account_info: no_remaining() }.data())
    }

    pub fn withdraw(&mut self, b: &Buyer, amount: u64) -> Outcome {
        let v = ev(vec![
            m(self.presale), m(self.quote_vault), r(self.quote_mint), r(self.authority), m(b.escrow), m(b.quote), s(b.owner), r(self.quote_program),
            r(anchor_spl::memo::ID),
        ]);
        self.w.run(&v, &ix::Withdraw { amount, remaining_account_info: no_remaining() }.data())
    }

    pub fn claim(&mut self, b: &Buyer) -> Outcome {
        let v = ev(vec![
            m(self.presale), m(self.base_vault), r(self.base_mint), r(self.authority), m(b.escrow), m(b.base), s(b.owner), r(self.base_program),
            r(anchor_spl::memo::ID),
        ]);
        self.w.run(&v, &ix::Claim { remaining_accounts_info: no_remaining() }.data())
    }

    pub fn refund(&mut self, b: &Buyer) -> Outcome {
        let v = ev(vec![
            m(self.presale), m(self.quote_vault), r(self.quote_mint), r(self.authority), m(b.escrow), m(b.quote), s(b.owner), r(self.quote_program),
            r(anchor_spl::memo::ID),
        ]);
        self.w.run(&v, &ix::WithdrawRemainingQuote { remaining_accounts_info: no_remaining() }.data())
    }

    pub fn refresh(&mut self, b: &Buyer) -> Outcome {
        self.w.run(&ev(vec![r(self.presale), m(b.escrow)]), &ix::RefreshEscrow {}.data())
    }

    pub fn close(&mut self, b: &Buyer) -> Outcome {
        let v = ev(vec![m(self.presale), m(b.escrow), s(b.owner), m(self.payer)]);
        self.w.run(&v, &ix::CloseEscrow {}.data())
    }

    pub fn creator_withdraw(&mut self, base: bool) -> Outcome {
        let (vault, mint, prog, to) = if base {
            (self.base_vault, self.base_mint, self.base_program, self.creator_base)
        } else {
            (self.quote_vault, self.quote_mint, self.quote_program, self.creator_quote)
        };
        let mut v = ev(vec![m(self.presale), r(self.authority), m(to), s(self.creator), r(prog), r(anchor_spl::memo::ID)]);
        v.push(m(vault));
        v.push(r(mint));
        self.w.run(&v, &ix::CreatorWithdraw { remaining_accounts_info: no_remaining() }.data())
    }

    pub fn collect_fee(&mut self) -> Outcome {
        let v = ev(vec![
            m(self.presale), r(self.authority), m(self.quote_vault), r(self.quote_mint), m(self.creator_quote), s(self.creator), r(self.quote_program),
            r(anchor_spl::memo::ID),
        ]);
        self.w.run(&v, &ix::CreatorCollectFee { remaining_accounts_info: no_remaining() }.data())
    }

    pub fn unsold(&mut self) -> Outcome {
        let v = ev(vec![
            m(self.presale), m(self.base_vault), m(self.base_mint), r(self.authority), m(self.creator_base), r(self.base_program), r(anchor_spl::memo::ID),
        ]);
        self.w.run(&v, &ix::PerformUnsoldBaseTokenAction { remaining_accounts_info: no_remaining() }.data())
    }

    pub fn sale(&self) -> presale::Presale { read(&self.w, &self.presale) }
    pub fn escrow(&self, b: &Buyer) -> presale::Escrow { read(&self.w, &b.escrow) }
    pub fn bal(&self, k: &Pubkey) -> u64 { balance(&self.w, k) }
}

#[derive(Clone, Copy)]
pub struct Buyer {
    pub owner: Pubkey,
    pub quote: Pubkey,
    pub base: Pubkey,
    pub escrow: Pubkey,
    pub reg: u8,
}

/// fails the demonstration
pub fn check(c: bool, what: &str) {
    if !c {
        println!("VIOLATED: {what}");
        std::process::exit(1);
    }
}

/// the scenario itself must work, whether or not the property does
pub fn must(o: Outcome, what: &str) {
    if !o.ok {
        println!("FAILED STEP: {what}: {}", o.err);
        std::process::exit(1);
    }
}
