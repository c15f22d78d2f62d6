//! Building blocks for scenarios.
use crate::*;
use anchor_lang::solana_program::program_pack::Pack;
use anchor_spl::token::spl_token::state as ts;

pub fn key(n: u64) -> Pubkey {
    let mut b = [7u8; 32];
    b[..8].copy_from_slice(&n.to_be_bytes());
    Pubkey::new_from_array(b)
}

pub fn pda(seeds: &[&[u8]]) -> Pubkey {
    Pubkey::find_program_address(seeds, &presale::ID).0
}

pub fn wallet(w: &mut World, k: Pubkey) -> Pubkey {
    w.accs.insert(k, Acc { owner: system_program::ID, lamports: 1_000_000_000_000, data: vec![], executable: false });
    k
}

pub fn programs(w: &mut World) {
    for p in [system_program::ID, spl_token::ID, spl_token_2022::ID, anchor_spl::memo::ID, presale::ID] {
        w.accs.insert(p, Acc { owner: p, lamports: 1, data: vec![], executable: true });
    }
}

pub fn mint(w: &mut World, k: Pubkey, program: Pubkey) -> Pubkey {
    let m = ts::Mint { mint_authority: None.into(), supply: u64::MAX, decimals: 6, is_initialized: true, freeze_authority: None.into() };
    let mut d = vec![0u8; ts::Mint::LEN];
    ts::Mint::pack(m, &mut d).unwrap();
    w.accs.insert(k, Acc { owner: program, lamports: 10_000_000, data: d, executable: false });
    k
}

pub fn token(w: &mut World, k: Pubkey, program: Pubkey, mint: Pubkey, owner: Pubkey, amount: u64) -> Pubkey {
    let a = ts::Account {
        mint,
        owner,
        amount,
        delegate: None.into(),
        state: ts::AccountState::Initialized,
        is_native: None.into(),
        delegated_amount: 0,
        close_authority: None.into(),
    };
    let mut d = vec![0u8; ts::Account::LEN];
    ts::Account::pack(a, &mut d).unwrap();
    w.accs.insert(k, Acc { owner: program, lamports: 10_000_000, data: d, executable: false });
    k
}

pub fn balance(w: &World, k: &Pubkey) -> u64 {
    u64::from_le_bytes(w.accs[k].data[64..72].try_into().unwrap())
}

/// decoded zero-copy account
pub fn read<T: bytemuck_like::Pod>(w: &World, k: &Pubkey) -> T {
    bytemuck_like::read(&w.accs[k].data[8..])
}

pub mod bytemuck_like {
    pub trait Pod: Copy {}
    impl<T: Copy> Pod for T {}
    pub fn read<T: Copy>(b: &[u8]) -> T {
        assert!(b.len() >= std::mem::size_of::<T>());
        unsafe { std::ptr::read_unaligned(b.as_ptr() as *const T) }
    }
}

/// Token-2022 mint with a transfer fee: one rate until the given epoch, another from it on
pub fn fee_mint(w: &mut World, k: Pubkey, bps_before: u16, bps_from: u16, epoch: u64) -> Pubkey {
    use spl_token_2022::extension::{transfer_fee::*, *};
    use spl_token_2022::state::Mint;
    let n = ExtensionType::try_calculate_account_len::<Mint>(&[ExtensionType::TransferFeeConfig]).unwrap();
    let mut d = vec![0u8; n];
    let mut st = StateWithExtensionsMut::<Mint>::unpack_uninitialized(&mut d).unwrap();
    let e = st.init_extension::<TransferFeeConfig>(true).unwrap();
    e.older_transfer_fee = TransferFee { epoch: 0.into(), maximum_fee: u64::MAX.into(), transfer_fee_basis_points: bps_before.into() };
    e.newer_transfer_fee = TransferFee { epoch: epoch.into(), maximum_fee: u64::MAX.into(), transfer_fee_basis_points: bps_from.into() };
    st.base = Mint { mint_authority: None.into(), supply: u64::MAX, decimals: 6, is_initialized: true, freeze_authority: None.into() };
    st.pack_base();
    st.init_account_type().unwrap();
    w.accs.insert(k, Acc { owner: spl_token_2022::ID, lamports: 10_000_000, data: d, executable: false });
    k
}

/// token account of such a mint
pub fn fee_token(w: &mut World, k: Pubkey, mint: Pubkey, owner: Pubkey, amount: u64) -> Pubkey {
    use spl_token_2022::extension::{transfer_fee::*, *};
    use spl_token_2022::state::{Account, AccountState};
    let n = ExtensionType::try_calculate_account_len::<Account>(&[ExtensionType::TransferFeeAmount]).unwrap();
    let mut d = vec![0u8; n];
    let mut st = StateWithExtensionsMut::<Account>::unpack_uninitialized(&mut d).unwrap();
    st.init_extension::<TransferFeeAmount>(true).unwrap();
    st.base = Account { mint, owner, amount, delegate: None.into(), state: AccountState::Initialized, is_native: None.into(), delegated_amount: 0, close_authority: None.into() };
    st.pack_base();
    st.init_account_type().unwrap();
    w.accs.insert(k, Acc { owner: spl_token_2022::ID, lamports: 10_000_000, data: d, executable: false });
    k
}
