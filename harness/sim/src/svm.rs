//! A small single-threaded stand-in for the Solana runtime.
//!
//! Runs the real program natively: accounts are serialised into the loader's input layout, so
//! `AccountInfo::realloc` and friends work on real memory; CPIs go through the program's syscall
//! stubs; a transaction is atomic; a panic is a failed transaction; and the runtime's own rules
//! (privileges, ownership, lamport conservation) are enforced.
use solana_program::account_info::AccountInfo;
use solana_program::clock::Clock;
use solana_program::entrypoint::ProgramResult;
use solana_program::instruction::{AccountMeta, Instruction};
use solana_program::program_error::ProgramError;
use solana_program::pubkey::Pubkey;
use solana_program::rent::Rent;
use solana_program::system_instruction::SystemInstruction;
use solana_program::{system_program, sysvar};
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, HashMap};
use std::rc::Rc;

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Account {
    pub lamports: u64,
    pub data: Vec<u8>,
    pub owner: Pubkey,
    pub executable: bool,
}
impl Default for Account {
    fn default() -> Self {
        Account { lamports: 0, data: vec![], owner: system_program::id(), executable: false }
    }
}
impl Account {
    pub fn new(lamports: u64, len: usize, owner: &Pubkey) -> Self {
        Account { lamports, data: vec![0; len], owner: *owner, executable: false }
    }
}
pub type Acc = Rc<Account>;
pub type Processor = fn(&Pubkey, &[AccountInfo], &[u8]) -> ProgramResult;
pub type Accounts = BTreeMap<Pubkey, Acc>;

#[derive(Clone, Debug)]
pub enum IxErr {
    Program(ProgramError),
    Panic(String),
    Runtime(String),
}

#[derive(Clone, Debug)]
pub struct CpiRecord {
    pub caller: Pubkey,
    pub program_id: Pubkey,
    pub keys: Vec<Pubkey>,
    pub data: Vec<u8>,
}

/// One executed top-level instruction and the accounts it was handed, before and after.
#[derive(Clone, Debug)]
pub struct IxRecord {
    pub program_id: Pubkey,
    pub metas: Vec<AccountMeta>,
    pub data: Vec<u8>,
    pub pre: Vec<(Pubkey, Acc)>,
    pub post: Vec<(Pubkey, Acc)>,
    pub events: Vec<Vec<u8>>,
    pub cpis: Vec<CpiRecord>,
}
impl IxRecord {
    pub fn pre(&self, k: &Pubkey) -> Option<&Acc> {
        self.pre.iter().find(|(p, _)| p == k).map(|(_, a)| a)
    }
    pub fn post(&self, k: &Pubkey) -> Option<&Acc> {
        self.post.iter().find(|(p, _)| p == k).map(|(_, a)| a)
    }
    pub fn key(&self, i: usize) -> Pubkey {
        self.metas[i].pubkey
    }
}

#[derive(Clone, Debug)]
pub struct TxRecord {
    pub ixs: Vec<Instruction>,
    pub signers: Vec<Pubkey>,
    pub clock: Clock,
    pub result: Result<(), (usize, IxErr)>,
    /// the instructions that ran to success (all of them, or those before the failing one)
    pub done: Vec<IxRecord>,
    pub logs: Vec<String>,
}
impl TxRecord {
    pub fn ok(&self) -> bool {
        self.result.is_ok()
    }
    pub fn custom_error(&self) -> Option<u32> {
        match &self.result {
            Err((_, IxErr::Program(ProgramError::Custom(c)))) => Some(*c),
            _ => None,
        }
    }
}

struct Frame {
    program_id: Pubkey,
    /// what each account looked like when this frame last had to answer for it
    baseline: HashMap<Pubkey, Account>,
}

/// The runtime's rules for what a program may do to an account.
fn check_change(
    program_id: &Pubkey,
    base: &Account,
    writable: bool,
    owner: &Pubkey,
    lamports: u64,
    data: &[u8],
) -> Result<(), IxErr> {
    let data_changed = data != &base.data[..];
    if !writable {
        if data_changed || lamports != base.lamports || *owner != base.owner {
            return Err(IxErr::Runtime("readonly account modified".into()));
        }
        return Ok(());
    }
    if data_changed && base.owner != *program_id {
        return Err(IxErr::Runtime("external account data modified".into()));
    }
    if lamports < base.lamports && base.owner != *program_id {
        return Err(IxErr::Runtime("external account lamport spend".into()));
    }
    if *owner != base.owner && (base.owner != *program_id || data.iter().any(|x| *x != 0)) {
        return Err(IxErr::Runtime("illegal owner change".into()));
    }
    Ok(())
}

struct Ctx {
    clock: Clock,
    rent: Rent,
    logs: Vec<String>,
    keep_logs: bool,
    events: Vec<Vec<u8>>,
    cpis: Vec<CpiRecord>,
    return_data: Option<(Pubkey, Vec<u8>)>,
    stack: Vec<Frame>,
    programs: HashMap<Pubkey, Processor>,
}

thread_local! {
    static CTX: RefCell<Ctx> = RefCell::new(Ctx {
        clock: Clock::default(),
        rent: Rent::default(),
        logs: vec![],
        keep_logs: false,
        events: vec![],
        cpis: vec![],
        return_data: None,
        stack: vec![],
        programs: HashMap::new(),
    });
    static PANIC_MSG: RefCell<Option<String>> = RefCell::new(None);
    static IN_SVM: Cell<bool> = Cell::new(false);
}

struct Stubs;
impl solana_program::program_stubs::SyscallStubs for Stubs {
    fn sol_log(&self, message: &str) {
        CTX.with(|c| {
            let mut c = c.borrow_mut();
            if c.keep_logs {
                c.logs.push(format!("Program log: {message}"));
            }
        })
    }
    fn sol_log_compute_units(&self) {}
    fn sol_invoke_signed(
        &self,
        instruction: &Instruction,
        infos: &[AccountInfo],
        seeds: &[&[&[u8]]],
    ) -> ProgramResult {
        invoke_signed(instruction, infos, seeds)
    }
    fn sol_get_clock_sysvar(&self, var_addr: *mut u8) -> u64 {
        CTX.with(|c| unsafe { *(var_addr as *mut Clock) = c.borrow().clock.clone() });
        0
    }
    fn sol_get_rent_sysvar(&self, var_addr: *mut u8) -> u64 {
        CTX.with(|c| unsafe { *(var_addr as *mut Rent) = c.borrow().rent });
        0
    }
    fn sol_get_return_data(&self) -> Option<(Pubkey, Vec<u8>)> {
        CTX.with(|c| c.borrow().return_data.clone())
    }
    fn sol_set_return_data(&self, data: &[u8]) {
        CTX.with(|c| {
            let mut c = c.borrow_mut();
            let p = c.stack.last().map(|f| f.program_id).unwrap_or_default();
            c.return_data = Some((p, data.to_vec()));
        })
    }
    fn sol_log_data(&self, fields: &[&[u8]]) {
        CTX.with(|c| {
            let mut c = c.borrow_mut();
            for f in fields {
                if c.keep_logs {
                    let l = format!("Program data: {}", base64::encode(f));
                    c.logs.push(l);
                }
                c.events.push(f.to_vec());
            }
        })
    }
    fn sol_get_stack_height(&self) -> u64 {
        CTX.with(|c| c.borrow().stack.len() as u64)
    }
}

pub fn init_process() {
    static ONCE: std::sync::Once = std::sync::Once::new();
    ONCE.call_once(|| {
        solana_program::program_stubs::set_syscall_stubs(Box::new(Stubs));
        let prev = std::panic::take_hook();
        std::panic::set_hook(Box::new(move |info| {
            if IN_SVM.with(|f| f.get()) {
                let m = info.to_string();
                PANIC_MSG.with(|p| *p.borrow_mut() = Some(m));
            } else {
                prev(info)
            }
        }));
    });
}

const MAX_INCREASE: usize = 10240;

struct Slot {
    key: Pubkey,
    acc: Account,
    signer: bool,
    writable: bool,
}

/// Buffer with 16-byte aligned start.
struct Buf {
    v: Vec<u128>,
}
impl Buf {
    fn new(len: usize) -> Self {
        Buf { v: vec![0u128; len / 16 + 1] }
    }
    fn bytes(&mut self) -> &mut [u8] {
        bytemuck::cast_slice_mut(&mut self.v)
    }
}

/// Runs one program call over `slots` (unique accounts) with instruction accounts `metas`
/// (indexes into slots). Writes results back into the slots. Enforces the runtime's rules.
fn execute(
    program_id: &Pubkey,
    slots: &mut [Slot],
    order: &[usize],
    data: &[u8],
) -> Result<(), IxErr> {
    let proc_ = CTX
        .with(|c| c.borrow().programs.get(program_id).copied())
        .ok_or_else(|| IxErr::Runtime(format!("unknown program {program_id}")))?;
    // serialize
    let mut len = 8 + 8 + data.len() + 32 + 64;
    for s in slots.iter() {
        len += 1 + 7 + 32 + 32 + 8 + 8 + s.acc.data.len() + MAX_INCREASE + 8 + 16;
    }
    len += order.len() * 8;
    let mut buf = Buf::new(len);
    let b = buf.bytes();
    let mut o = 0usize;
    b[o..o + 8].copy_from_slice(&(order.len() as u64).to_le_bytes());
    o += 8;
    let mut offs: Vec<Option<usize>> = vec![None; slots.len()];
    let mut pos: Vec<u8> = vec![0; slots.len()];
    for (i, &si) in order.iter().enumerate() {
        if offs[si].is_some() {
            b[o] = pos[si];
            o += 8;
            continue;
        }
        let s = &slots[si];
        offs[si] = Some(o);
        pos[si] = i as u8;
        b[o] = 0xff;
        b[o + 1] = s.signer as u8;
        b[o + 2] = s.writable as u8;
        b[o + 3] = s.acc.executable as u8;
        o += 8;
        b[o..o + 32].copy_from_slice(s.key.as_ref());
        o += 32;
        b[o..o + 32].copy_from_slice(s.acc.owner.as_ref());
        o += 32;
        b[o..o + 8].copy_from_slice(&s.acc.lamports.to_le_bytes());
        o += 8;
        let dl = s.acc.data.len();
        b[o..o + 8].copy_from_slice(&(dl as u64).to_le_bytes());
        o += 8;
        b[o..o + dl].copy_from_slice(&s.acc.data);
        o += dl + MAX_INCREASE;
        o = (o + 7) / 8 * 8;
        b[o..o + 8].copy_from_slice(&u64::MAX.to_le_bytes());
        o += 8;
    }
    b[o..o + 8].copy_from_slice(&(data.len() as u64).to_le_bytes());
    o += 8;
    b[o..o + data.len()].copy_from_slice(data);
    o += data.len();
    b[o..o + 32].copy_from_slice(program_id.as_ref());
    let ptr = b.as_mut_ptr();

    CTX.with(|c| {
        let mut c = c.borrow_mut();
        c.stack.push(Frame { program_id: *program_id, baseline: HashMap::new() });
        c.return_data = None;
    });
    let res = unsafe {
        let (pid, infos, idata) = solana_program::entrypoint::deserialize(ptr);
        proc_(pid, &infos, idata)
    };
    let baseline = CTX.with(|c| c.borrow_mut().stack.pop().unwrap().baseline);
    res.map_err(IxErr::Program)?;

    // read back and check
    let b = buf.bytes();
    let mut pre_sum = 0u128;
    let mut post_sum = 0u128;
    for (si, s) in slots.iter_mut().enumerate() {
        let o = match offs[si] {
            Some(o) => o,
            None => continue,
        };
        let owner = Pubkey::try_from(&b[o + 40..o + 72]).unwrap();
        let lamports = u64::from_le_bytes(b[o + 72..o + 80].try_into().unwrap());
        let dl = u64::from_le_bytes(b[o + 80..o + 88].try_into().unwrap()) as usize;
        let d = &b[o + 88..o + 88 + dl];
        pre_sum += s.acc.lamports as u128;
        post_sum += lamports as u128;
        let base = baseline.get(&s.key).unwrap_or(&s.acc);
        check_change(program_id, base, s.writable, &owner, lamports, d)?;
        if !s.writable {
            continue;
        }
        s.acc.lamports = lamports;
        s.acc.owner = owner;
        if d != &s.acc.data[..] {
            s.acc.data.clear();
            s.acc.data.extend_from_slice(d);
        }
    }
    if pre_sum != post_sum {
        return Err(IxErr::Runtime("unbalanced instruction".into()));
    }
    Ok(())
}

fn invoke_signed(ix: &Instruction, infos: &[AccountInfo], seeds: &[&[&[u8]]]) -> ProgramResult {
    let caller = CTX.with(|c| {
        let c = c.borrow();
        if c.stack.len() >= 5 {
            return Err(ProgramError::MaxSeedLengthExceeded);
        }
        Ok(c.stack.last().unwrap().program_id)
    })?;
    let mut pdas = vec![];
    for s in seeds {
        pdas.push(
            Pubkey::create_program_address(s, &caller).map_err(|_| ProgramError::InvalidSeeds)?,
        );
    }
    let mut slots: Vec<Slot> = vec![];
    let mut info_ix: Vec<usize> = vec![];
    let mut order = vec![];
    for m in &ix.accounts {
        let ii = infos
            .iter()
            .position(|i| *i.key == m.pubkey)
            .ok_or(ProgramError::NotEnoughAccountKeys)?;
        let info = &infos[ii];
        if m.is_writable && !info.is_writable {
            return Err(ProgramError::Custom(0xC0DE_0001)); // writable privilege escalated
        }
        if m.is_signer && !info.is_signer && !pdas.contains(&m.pubkey) {
            return Err(ProgramError::Custom(0xC0DE_0002)); // signer privilege escalated
        }
        if let Some(p) = slots.iter().position(|s| s.key == m.pubkey) {
            slots[p].signer |= m.is_signer;
            slots[p].writable |= m.is_writable;
            order.push(p);
        } else {
            let acc = Account {
                lamports: **info.try_borrow_lamports()?,
                data: info.try_borrow_data()?.to_vec(),
                owner: *info.owner,
                executable: info.executable,
            };
            slots.push(Slot { key: m.pubkey, acc, signer: m.is_signer, writable: m.is_writable });
            info_ix.push(ii);
            order.push(slots.len() - 1);
        }
    }
    CTX.with(|c| {
        let mut c = c.borrow_mut();
        c.cpis.push(CpiRecord {
            caller,
            program_id: ix.program_id,
            keys: ix.accounts.iter().map(|m| m.pubkey).collect(),
            data: ix.data.clone(),
        });
    });
    // the caller answers now for what it did so far
    CTX.with(|c| {
        let c = c.borrow();
        let f = c.stack.last().unwrap();
        for (s, ii) in slots.iter().zip(&info_ix) {
            if let Some(b) = f.baseline.get(&s.key) {
                let w = infos[*ii].is_writable;
                if check_change(&caller, b, w, &s.acc.owner, s.acc.lamports, &s.acc.data).is_err() {
                    return Err(ProgramError::Custom(0xC0DE_0005));
                }
            }
        }
        Ok(())
    })?;
    let r = execute(&ix.program_id, &mut slots, &order, &ix.data);
    match r {
        Ok(()) => {}
        Err(IxErr::Program(p)) => return Err(p),
        Err(IxErr::Panic(_)) => return Err(ProgramError::Custom(0xC0DE_0003)),
        Err(IxErr::Runtime(m)) => {
            CTX.with(|c| c.borrow_mut().logs.push(m));
            return Err(ProgramError::Custom(0xC0DE_0004));
        }
    }
    for (s, ii) in slots.iter().zip(info_ix) {
        if !s.writable {
            continue;
        }
        let info = &infos[ii];
        **info.try_borrow_mut_lamports()? = s.acc.lamports;
        if info.data_len() != s.acc.data.len() {
            info.realloc(s.acc.data.len(), false)?;
        }
        info.try_borrow_mut_data()?.copy_from_slice(&s.acc.data);
        if *info.owner != s.acc.owner {
            info.assign(&s.acc.owner);
        }
        let k = s.key;
        let a = s.acc.clone();
        CTX.with(|c| c.borrow_mut().stack.last_mut().unwrap().baseline.insert(k, a));
    }
    Ok(())
}

// ---------------------------------------------------------------------------------- builtins

fn system_processor(_pid: &Pubkey, accs: &[AccountInfo], data: &[u8]) -> ProgramResult {
    let ix: SystemInstruction =
        bincode::deserialize(data).map_err(|_| ProgramError::InvalidInstructionData)?;
    let transfer = |from: &AccountInfo, to: &AccountInfo, l: u64| -> ProgramResult {
        if !from.is_signer {
            return Err(ProgramError::MissingRequiredSignature);
        }
        if !from.data_is_empty() {
            return Err(ProgramError::InvalidArgument);
        }
        if from.lamports() < l {
            return Err(ProgramError::InsufficientFunds);
        }
        **from.try_borrow_mut_lamports()? -= l;
        **to.try_borrow_mut_lamports()? += l;
        Ok(())
    };
    let allocate = |a: &AccountInfo, space: u64| -> ProgramResult {
        if !a.is_signer {
            return Err(ProgramError::MissingRequiredSignature);
        }
        if !a.data_is_empty() || *a.owner != system_program::id() {
            return Err(ProgramError::AccountAlreadyInitialized);
        }
        if space as usize > 10 * 1024 * 1024 {
            return Err(ProgramError::InvalidArgument);
        }
        // the runtime allows any size here; our input buffers leave 10 KiB, enough for CPIs.
        a.realloc(space as usize, true)
    };
    match ix {
        SystemInstruction::CreateAccount { lamports, space, owner } => {
            if accs[1].lamports() > 0 {
                return Err(ProgramError::Custom(0));
            }
            transfer(&accs[0], &accs[1], lamports)?;
            allocate(&accs[1], space)?;
            accs[1].assign(&owner);
        }
        SystemInstruction::Transfer { lamports } => transfer(&accs[0], &accs[1], lamports)?,
        SystemInstruction::Allocate { space } => allocate(&accs[0], space)?,
        SystemInstruction::Assign { owner } => {
            if !accs[0].is_signer {
                return Err(ProgramError::MissingRequiredSignature);
            }
            accs[0].assign(&owner);
        }
        _ => return Err(ProgramError::InvalidInstructionData),
    }
    Ok(())
}

fn noop_processor(_: &Pubkey, _: &[AccountInfo], _: &[u8]) -> ProgramResult {
    Ok(())
}

/// Create (0) and Extend (2), which is all the program calls.
fn alt_processor(pid: &Pubkey, accs: &[AccountInfo], data: &[u8]) -> ProgramResult {
    match data[0] {
        2 => {
            if accs[0].owner != pid || !accs[1].is_signer {
                return Err(ProgramError::IllegalOwner);
            }
            if &accs[0].try_borrow_data()?[22..54] != accs[1].key.as_ref() {
                return Err(ProgramError::InvalidArgument);
            }
            let n = u64::from_le_bytes(data[4..12].try_into().unwrap()) as usize;
            let old = accs[0].data_len();
            accs[0].realloc(old + 32 * n, true)?;
            accs[0].try_borrow_mut_data()?[old..].copy_from_slice(&data[12..12 + 32 * n]);
            Ok(())
        }
        _ => Err(ProgramError::InvalidInstructionData),
    }
}

fn spl_token_processor(pid: &Pubkey, accs: &[AccountInfo], data: &[u8]) -> ProgramResult {
    spl_token::processor::Processor::process(pid, accs, data)
}
fn ata_processor(pid: &Pubkey, accs: &[AccountInfo], data: &[u8]) -> ProgramResult {
    spl_associated_token_account::processor::process_instruction(pid, accs, data)
}

fn mango_processor(pid: &Pubkey, accs: &[AccountInfo], data: &[u8]) -> ProgramResult {
    // the lifetimes of anchor's generated entry are stricter than the loader's
    let accs: &[AccountInfo] = unsafe { std::mem::transmute(accs) };
    let data: &[u8] = unsafe { std::mem::transmute(data) };
    mango_v4::entry(pid, accs, data)
}
fn margin_trade_processor(pid: &Pubkey, accs: &[AccountInfo], data: &[u8]) -> ProgramResult {
    let accs: &[AccountInfo] = unsafe { std::mem::transmute(accs) };
    let data: &[u8] = unsafe { std::mem::transmute(data) };
    margin_trade::entry(pid, accs, data)
}
fn serum_processor(pid: &Pubkey, accs: &[AccountInfo], data: &[u8]) -> ProgramResult {
    let accs: &[AccountInfo] = unsafe { std::mem::transmute(accs) };
    serum_dex::dex::process(pid, accs, data)
}

/// a program of nobody's that passes on whatever it is told to: first account the program, then its accounts
fn forward_processor(_pid: &Pubkey, accs: &[AccountInfo], data: &[u8]) -> ProgramResult {
    if accs.is_empty() {
        return Err(ProgramError::NotEnoughAccountKeys);
    }
    let ix = Instruction {
        program_id: *accs[0].key,
        accounts: accs[1..]
            .iter()
            .map(|a| AccountMeta { pubkey: *a.key, is_signer: a.is_signer, is_writable: a.is_writable })
            .collect(),
        data: data.to_vec(),
    };
    solana_program::program::invoke(&ix, accs)
}
pub fn forward_id() -> Pubkey {
    Pubkey::from([78u8; 32])
}

pub fn compute_budget_id() -> Pubkey {
    "ComputeBudget111111111111111111111111111111".parse().unwrap()
}
pub fn memo_like_id() -> Pubkey {
    Pubkey::from([77u8; 32])
}
pub fn alt_id() -> Pubkey {
    solana_address_lookup_table_program::id()
}

pub struct Svm {
    pub accounts: Accounts,
    pub clock: Clock,
    pub rent: Rent,
    pub keep_logs: bool,
    programs: HashMap<Pubkey, Processor>,
    /// optional delay hook after every transaction
    pub tx_count: u64,
}

impl Svm {
    pub fn new() -> Self {
        init_process();
        let mut s = Svm {
            accounts: BTreeMap::new(),
            clock: Clock { slot: 1000, unix_timestamp: 1_700_000_000, ..Clock::default() },
            rent: Rent::default(),
            keep_logs: std::env::var_os("SIM_TRACE").is_some(),
            programs: HashMap::new(),
            tx_count: 0,
        };
        s.add_program(mango_v4::id(), mango_processor);
        s.add_program(system_program::id(), system_processor);
        s.add_program(spl_token::id(), spl_token_processor);
        s.add_program(spl_associated_token_account::id(), ata_processor);
        s.add_program(compute_budget_id(), noop_processor);
        s.add_program(memo_like_id(), noop_processor);
        s.add_program(alt_id(), alt_processor);
        s.add_program(forward_id(), forward_processor);
        s.add_program(margin_trade::id(), margin_trade_processor);
        s
    }
    pub fn add_program(&mut self, id: Pubkey, p: Processor) {
        self.programs.insert(id, p);
        self.accounts.insert(
            id,
            Rc::new(Account {
                lamports: 1,
                data: vec![],
                owner: solana_program::bpf_loader::id(),
                executable: true,
            }),
        );
    }
    pub fn add_serum_program(&mut self, id: Pubkey) {
        self.add_program(id, serum_processor);
    }
    pub fn get(&self, k: &Pubkey) -> Option<&Acc> {
        self.accounts.get(k)
    }
    pub fn data(&self, k: &Pubkey) -> &[u8] {
        &self.accounts[k].data
    }
    pub fn set(&mut self, k: Pubkey, a: Account) {
        self.accounts.insert(k, Rc::new(a));
    }
    pub fn snapshot(&self) -> (Accounts, Clock) {
        (self.accounts.clone(), self.clock.clone())
    }
    pub fn restore(&mut self, s: &(Accounts, Clock)) {
        self.accounts = s.0.clone();
        self.clock = s.1.clone();
    }

    fn sysvar_account(&self, k: &Pubkey) -> Option<Account> {
        let owner = sysvar::id();
        if *k == sysvar::clock::id() {
            return Some(Account {
                lamports: 1,
                data: bincode::serialize(&self.clock).unwrap(),
                owner,
                executable: false,
            });
        }
        if *k == sysvar::rent::id() {
            return Some(Account {
                lamports: 1,
                data: bincode::serialize(&self.rent).unwrap(),
                owner,
                executable: false,
            });
        }
        None
    }

    /// Runs a transaction; state only changes on success.
    pub fn process(&mut self, ixs: &[Instruction], signers: &[Pubkey]) -> TxRecord {
        self.tx_count += 1;
        let mut rec = TxRecord {
            ixs: ixs.to_vec(),
            signers: signers.to_vec(),
            clock: self.clock.clone(),
            result: Ok(()),
            done: vec![],
            logs: vec![],
        };
        let programs = self.programs.clone();
        CTX.with(|c| {
            let mut c = c.borrow_mut();
            c.clock = self.clock.clone();
            c.rent = self.rent;
            c.logs.clear();
            c.events.clear();
            c.cpis.clear();
            c.return_data = None;
            c.stack.clear();
            c.keep_logs = self.keep_logs;
            c.programs = programs;
        });
        // message level privileges
        let mut writable: HashMap<Pubkey, bool> = HashMap::new();
        let mut signer: HashMap<Pubkey, bool> = HashMap::new();
        for ix in ixs {
            for m in &ix.accounts {
                *writable.entry(m.pubkey).or_default() |= m.is_writable;
                *signer.entry(m.pubkey).or_default() |= m.is_signer;
            }
        }
        for (k, s) in &signer {
            if *s && !signers.contains(k) {
                rec.result = Err((0, IxErr::Runtime("missing signature".into())));
                return rec;
            }
        }
        let mut overlay: HashMap<Pubkey, Acc> = HashMap::new();
        let borrowed: Vec<sysvar::instructions::BorrowedInstruction> = ixs
            .iter()
            .map(|ix| sysvar::instructions::BorrowedInstruction {
                program_id: &ix.program_id,
                accounts: ix
                    .accounts
                    .iter()
                    .map(|m| sysvar::instructions::BorrowedAccountMeta {
                        pubkey: &m.pubkey,
                        is_signer: signer[&m.pubkey],
                        is_writable: writable[&m.pubkey],
                    })
                    .collect(),
                data: &ix.data,
            })
            .collect();
        let mut ix_sysvar = sysvar::instructions::construct_instructions_data(&borrowed);
        for (n, ix) in ixs.iter().enumerate() {
            sysvar::instructions::store_current_index(&mut ix_sysvar, n as u16);
            let mut slots: Vec<Slot> = vec![];
            let mut pre: Vec<(Pubkey, Acc)> = vec![];
            let mut order = vec![];
            for m in &ix.accounts {
                if let Some(p) = slots.iter().position(|s| s.key == m.pubkey) {
                    order.push(p);
                    continue;
                }
                let k = m.pubkey;
                let mut w = writable[&k];
                let acc: Acc = if k == sysvar::instructions::id() {
                    w = false;
                    Rc::new(Account {
                        lamports: 1,
                        data: ix_sysvar.clone(),
                        owner: sysvar::id(),
                        executable: false,
                    })
                } else if let Some(a) = self.sysvar_account(&k) {
                    w = false;
                    Rc::new(a)
                } else {
                    overlay
                        .get(&k)
                        .or_else(|| self.accounts.get(&k))
                        .cloned()
                        .unwrap_or_default()
                };
                if acc.executable {
                    w = false;
                }
                pre.push((k, acc.clone()));
                slots.push(Slot { key: k, acc: (*acc).clone(), signer: signer[&k], writable: w });
                order.push(slots.len() - 1);
            }
            // top level system instructions may allocate beyond the CPI limit
            let r = if ix.program_id == system_program::id() {
                big_create(&mut slots, &order, &ix.data).map_err(IxErr::Program)
            } else {
                IN_SVM.with(|f| f.set(true));
                let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                    execute(&ix.program_id, &mut slots, &order, &ix.data)
                }));
                IN_SVM.with(|f| f.set(false));
                CTX.with(|c| {
                    c.borrow_mut().stack.clear();
                });
                match r {
                    Ok(r) => r,
                    Err(_) => Err(IxErr::Panic(
                        PANIC_MSG.with(|p| p.borrow_mut().take()).unwrap_or_default(),
                    )),
                }
            };
            let (events, cpis) = CTX.with(|c| {
                let mut c = c.borrow_mut();
                (std::mem::take(&mut c.events), std::mem::take(&mut c.cpis))
            });
            if let Err(e) = r {
                rec.result = Err((n, e));
                break;
            }
            let mut post = Vec::with_capacity(slots.len());
            for (s, (k, p)) in slots.into_iter().zip(&pre) {
                debug_assert!(s.key == *k);
                let a = if s.acc == **p { p.clone() } else { Rc::new(s.acc) };
                if s.writable && !Rc::ptr_eq(&a, p) {
                    overlay.insert(*k, a.clone());
                }
                post.push((*k, a));
            }
            rec.done.push(IxRecord {
                program_id: ix.program_id,
                metas: ix
                    .accounts
                    .iter()
                    .map(|m| AccountMeta { pubkey: m.pubkey, is_signer: signer[&m.pubkey], is_writable: writable[&m.pubkey] })
                    .collect(),
                data: ix.data.clone(),
                pre,
                post,
                events,
                cpis,
            });
        }
        rec.logs = CTX.with(|c| std::mem::take(&mut c.borrow_mut().logs));
        if rec.result.is_ok() {
            for (k, a) in overlay {
                if a.lamports == 0 {
                    self.accounts.remove(&k);
                } else {
                    self.accounts.insert(k, a);
                }
            }
        }
        rec
    }
}

fn big_create(slots: &mut [Slot], order: &[usize], data: &[u8]) -> Result<(), ProgramError> {
    let ix: SystemInstruction =
        bincode::deserialize(data).map_err(|_| ProgramError::InvalidInstructionData)?;
    match ix {
        SystemInstruction::CreateAccount { lamports, space, owner } => {
            let (f, t) = (order[0], order[1]);
            if slots[t].acc.lamports > 0 || !slots[t].acc.data.is_empty() {
                return Err(ProgramError::Custom(0));
            }
            if !slots[f].signer || !slots[t].signer {
                return Err(ProgramError::MissingRequiredSignature);
            }
            if slots[f].acc.lamports < lamports {
                return Err(ProgramError::InsufficientFunds);
            }
            slots[f].acc.lamports -= lamports;
            slots[t].acc = Account::new(lamports, space as usize, &owner);
            Ok(())
        }
        SystemInstruction::Transfer { lamports } => {
            let (f, t) = (order[0], order[1]);
            if !slots[f].signer {
                return Err(ProgramError::MissingRequiredSignature);
            }
            if slots[f].acc.lamports < lamports {
                return Err(ProgramError::InsufficientFunds);
            }
            slots[f].acc.lamports -= lamports;
            slots[t].acc.lamports += lamports;
            Ok(())
        }
        _ => Err(ProgramError::InvalidInstructionData),
    }
}

// ------------------------------------------------------------------------------ deterministic keys

thread_local! {
    static KEY_COUNTER: Cell<u64> = Cell::new(0);
}
/// A fresh key; deterministic per thread after [`reset_keys`].
pub fn new_key() -> Pubkey {
    let n = KEY_COUNTER.with(|c| {
        c.set(c.get() + 1);
        c.get()
    });
    let h = solana_program::hash::hashv(&[b"verif-key", &n.to_le_bytes()]);
    Pubkey::from(h.to_bytes())
}
pub fn reset_keys(seed: u64) {
    KEY_COUNTER.with(|c| c.set(seed.wrapping_mul(1 << 24)));
}
