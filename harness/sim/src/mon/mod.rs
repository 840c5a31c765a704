//! Online monitors over the recorded history of transactions.
pub mod abi;
pub mod access;
pub mod book;
pub mod config;
pub mod delist;
pub mod diff;
pub mod fees;
pub mod flash;
pub mod frame;
pub mod health;
pub mod interest;
pub mod ledger;
pub mod lifecycle;
pub mod limits;
pub mod liq;
pub mod perp;
pub mod perpliq;
pub mod prices;
pub mod region;
pub mod safety;
pub mod spot;
pub mod tcs;
pub mod vault;

use crate::pt::solana::Observer;
use crate::st::State;
use crate::svm::{Accounts, IxRecord, TxRecord};
use solana_program::pubkey::Pubkey;
use std::cell::RefCell;
use std::collections::{BTreeMap, HashMap, HashSet};
use std::sync::OnceLock;

pub struct IxAbi {
    pub name: &'static str,
    pub accounts: Vec<&'static str>,
}
pub fn abi() -> &'static HashMap<[u8; 8], IxAbi> {
    static A: OnceLock<HashMap<[u8; 8], IxAbi>> = OnceLock::new();
    A.get_or_init(|| {
        abi::ABI
            .lines()
            .filter(|l| !l.is_empty())
            .map(|l| {
                let mut p = l.split(' ');
                let name = p.next().unwrap();
                let h = solana_program::hash::hash(format!("global:{name}").as_bytes()).to_bytes();
                (
                    h[..8].try_into().unwrap(),
                    IxAbi { name, accounts: p.filter(|x| !x.is_empty()).collect() },
                )
            })
            .collect()
    })
}
pub fn ix_abi(data: &[u8]) -> Option<&'static IxAbi> {
    if data.len() < 8 {
        return None;
    }
    abi().get(&data[..8])
}

/// One committed instruction with the decoded state around it.
pub struct Ix<'a> {
    pub rec: &'a IxRecord,
    pub mango: bool,
    /// called by another program
    pub cpi: bool,
    pub name: &'static str,
    pub abi: Option<&'static IxAbi>,
    pub pre: &'a State,
    pub post: &'a State,
    pub now: u64,
    pub slot: u64,
}
impl<'a> Ix<'a> {
    /// the key of a named account; None if the instruction lacks it or it was left out
    pub fn acc(&self, name: &str) -> Option<Pubkey> {
        let i = self.abi?.accounts.iter().position(|a| *a == name)?;
        self.rec.metas.get(i).map(|m| m.pubkey).filter(|k| *k != mango_v4::id())
    }
    pub fn n_named(&self) -> usize {
        self.abi.map_or(0, |a| a.accounts.len())
    }
    pub fn remaining(&self) -> impl Iterator<Item = Pubkey> + '_ {
        self.rec.metas.iter().skip(self.n_named()).map(|m| m.pubkey)
    }
    pub fn args(&self) -> Args<'a> {
        Args { d: &self.rec.data[8.min(self.rec.data.len())..], o: 0 }
    }
    pub fn signed(&self, k: &Pubkey) -> bool {
        self.rec.metas.iter().any(|m| m.pubkey == *k && m.is_signer)
    }
    pub fn is(&self, names: &[&str]) -> bool {
        names.contains(&self.name)
    }
    /// keys of all accounts this instruction changed
    pub fn changed(&self) -> Vec<Pubkey> {
        self.rec
            .pre
            .iter()
            .zip(&self.rec.post)
            .filter(|((_, a), (_, b))| !std::rc::Rc::ptr_eq(a, b))
            .map(|((k, _), _)| *k)
            .collect()
    }
}
/// Borsh reader over instruction arguments.
pub struct Args<'a> {
    d: &'a [u8],
    o: usize,
}
impl<'a> Args<'a> {
    fn take(&mut self, n: usize) -> Vec<u8> {
        let mut v = vec![0u8; n];
        let have = self.d.len().saturating_sub(self.o).min(n);
        v[..have].copy_from_slice(&self.d[self.o..self.o + have]);
        self.o += n;
        v
    }
    pub fn u8(&mut self) -> u8 {
        self.take(1)[0]
    }
    pub fn bool(&mut self) -> bool {
        self.u8() != 0
    }
    pub fn u16(&mut self) -> u16 {
        u16::from_le_bytes(self.take(2).try_into().unwrap())
    }
    pub fn u32(&mut self) -> u32 {
        u32::from_le_bytes(self.take(4).try_into().unwrap())
    }
    pub fn u64(&mut self) -> u64 {
        u64::from_le_bytes(self.take(8).try_into().unwrap())
    }
    pub fn i64(&mut self) -> i64 {
        self.u64() as i64
    }
    pub fn i128(&mut self) -> i128 {
        i128::from_le_bytes(self.take(16).try_into().unwrap())
    }
    pub fn u128(&mut self) -> u128 {
        self.i128() as u128
    }
    pub fn f32(&mut self) -> f32 {
        f32::from_le_bytes(self.take(4).try_into().unwrap())
    }
    pub fn f64(&mut self) -> f64 {
        f64::from_le_bytes(self.take(8).try_into().unwrap())
    }
    pub fn i80(&mut self) -> f64 {
        self.i128() as f64 / (1u64 << 48) as f64
    }
}

pub struct Tx<'a> {
    pub rec: &'a TxRecord,
    pub pre: &'a State,
    pub post: &'a State,
    /// empty for transactions that failed
    pub ixs: Vec<Ix<'a>>,
    pub now: u64,
    pub slot: u64,
}

#[derive(Clone, Debug)]
pub struct Violation {
    pub prop: String,
    /// what kind of thing went wrong, stable across runs: known findings are keyed by it
    pub key: String,
    pub msg: String,
    pub tx: u64,
}

/// What monitors report to.
#[derive(Default)]
pub struct Out {
    pub violations: Vec<Violation>,
    pub evals: u64,
    pub counters: BTreeMap<String, u64>,
    pub distinct: HashSet<u64>,
    pub samples: Vec<String>,
    pub txs: u64,
    pub txs_ok: u64,
    pub ix_ok: BTreeMap<&'static str, u64>,
    pub ix_err: BTreeMap<String, u64>,
}
pub fn h64(x: impl std::hash::Hash) -> u64 {
    use std::hash::Hasher;
    let mut h = std::collections::hash_map::DefaultHasher::new();
    x.hash(&mut h);
    h.finish()
}
impl Out {
    pub fn count(&mut self, k: &str) {
        self.add(k, 1)
    }
    pub fn add(&mut self, k: &str, n: u64) {
        match self.counters.get_mut(k) {
            Some(v) => *v += n,
            None => drop(self.counters.insert(k.to_string(), n)),
        }
    }
    /// an oracle evaluation that was not trivially true; `case` says what makes it distinct
    pub fn eval(&mut self, kind: &str, case: impl std::hash::Hash, sample: impl FnOnce() -> String) {
        self.evals += 1;
        self.count(kind);
        let new = self.distinct.insert(h64((kind, case)));
        if new && self.samples.len() < 12 && self.counters[kind] <= 2 {
            self.samples.push(format!("{kind}: {}", sample()));
        }
    }
    pub fn fail(&mut self, prop: &str, key: &str, msg: String) {
        if self.violations.iter().filter(|v| v.key == key && v.prop == prop).count() < 3 && self.violations.len() < 100 {
            self.violations.push(Violation {
                prop: prop.into(),
                key: key.into(),
                msg,
                tx: self.txs,
            });
        }
    }
    pub fn merge(&mut self, o: Out) {
        self.violations.extend(o.violations);
        self.evals += o.evals;
        for (k, v) in o.counters {
            *self.counters.entry(k).or_default() += v;
        }
        self.distinct.extend(o.distinct);
        for s in o.samples {
            let kind = s.split(':').next().unwrap().to_string();
            let same = self.samples.iter().filter(|x| x.starts_with(&kind)).count();
            if self.samples.len() < 40 && same < 2 {
                self.samples.push(s);
            }
        }
        self.txs += o.txs;
        self.txs_ok += o.txs_ok;
        for (k, v) in o.ix_ok {
            *self.ix_ok.entry(k).or_default() += v;
        }
        for (k, v) in o.ix_err {
            *self.ix_err.entry(k).or_default() += v;
        }
    }
}

pub trait Monitor {
    fn tx(&mut self, _t: &Tx, _out: &mut Out) {}
    /// every committed program instruction
    fn ix(&mut self, _t: &Tx, _ix: &Ix, _out: &mut Out) {}
    /// a transaction that failed
    fn failed(&mut self, _t: &Tx, _out: &mut Out) {}
}

pub struct Hub {
    inner: RefCell<HubInner>,
}
pub struct HubInner {
    pub state: State,
    pub monitors: Vec<Box<dyn Monitor>>,
    pub out: Out,
    pub probing: bool,
    /// a shared loss exceeded a token's deposits: lenders owe from here on and nothing adds up (known finding of C11)
    pub spoiled: bool,
}
impl Hub {
    pub fn new(monitors: Vec<Box<dyn Monitor>>) -> Self {
        Hub {
            inner: RefCell::new(HubInner {
                state: State::default(),
                monitors,
                out: Out::default(),
                probing: false,
                spoiled: false,
            }),
        }
    }
    pub fn take(&self) -> Out {
        std::mem::take(&mut self.inner.borrow_mut().out)
    }
    pub fn n_violations(&self) -> usize {
        self.inner.borrow().out.violations.len()
    }
    /// is there a violation of `prop` besides the known findings?
    pub fn fresh_violations(&self, known: &[String]) -> bool {
        self.inner.borrow().out.violations.iter().any(|v| !known.contains(&v.key))
    }
    /// while set, transactions are not observed (what-if probes that get rolled back)
    pub fn set_probing(&self, p: bool) {
        self.inner.borrow_mut().probing = p;
    }
    pub fn spoiled(&self) -> bool {
        self.inner.borrow().spoiled
    }
    pub fn with_out<R>(&self, g: impl FnOnce(&mut Out) -> R) -> R {
        g(&mut self.inner.borrow_mut().out)
    }
    pub fn state(&self) -> State {
        self.inner.borrow().state.clone()
    }
    pub fn with_state<R>(&self, g: impl FnOnce(&State) -> R) -> R {
        g(&self.inner.borrow().state)
    }
    pub fn sync(&self, a: &Accounts) {
        self.inner.borrow_mut().state.sync(a);
    }
    pub fn reset_state(&self) {
        self.inner.borrow_mut().state = State::default();
    }
}
impl Observer for Hub {
    fn on_tx(&self, pre: &Accounts, rec: &TxRecord, post: &Accounts) {
        let mut g = self.inner.borrow_mut();
        let g = &mut *g;
        if g.probing || g.spoiled {
            return;
        }
        g.out.txs += 1;
        g.state.sync(pre);
        let s0 = g.state.clone();
        let now = rec.clock.unix_timestamp as u64;
        let slot = rec.clock.slot;
        if !rec.ok() {
            if let Err((i, e)) = &rec.result {
                let name = ix_abi(&rec.ixs[*i].data).map_or("other", |a| a.name);
                let code = match e {
                    crate::svm::IxErr::Program(solana_program::program_error::ProgramError::Custom(c)) => c.to_string(),
                    crate::svm::IxErr::Program(p) => format!("{p:?}"),
                    crate::svm::IxErr::Panic(_) => "panic".into(),
                    crate::svm::IxErr::Runtime(_) => "runtime".into(),
                };
                *g.out.ix_err.entry(format!("{name}/{code}")).or_default() += 1;
            }
            let t = Tx { rec, pre: &s0, post: &s0, ixs: vec![], now, slot };
            for m in g.monitors.iter_mut() {
                m.failed(&t, &mut g.out);
            }
            return;
        }
        g.out.txs_ok += 1;
        let mut states = vec![s0];
        for r in &rec.done {
            let n = states.last().unwrap().after(&r.pre, &r.post);
            states.push(n);
        }
        g.state = states.last().unwrap().clone();
        g.state.sync(post);
        let mut ixs = vec![];
        // instructions that reached the program through another one are judged like any other
        let unwrapped: Vec<IxRecord> = rec.done.iter().map(unforward).collect();
        for (i, r) in unwrapped.iter().enumerate() {
            let mango = r.program_id == mango_v4::id();
            let abi = if mango { ix_abi(&r.data) } else { None };
            let name = abi.map_or("other", |a| a.name);
            if mango {
                *g.out.ix_ok.entry(name).or_default() += 1;
            }
            ixs.push(Ix {
                rec: r,
                mango,
                cpi: rec.done[i].program_id != r.program_id,
                name,
                abi,
                pre: &states[i],
                post: &states[i + 1],
                now,
                slot,
            });
        }
        let post_state = g.state.clone();
        let t = Tx { rec, pre: &states[0], post: &post_state, ixs, now, slot };
        let n_before = g.out.violations.len();
        for m in g.monitors.iter_mut() {
            m.tx(&t, &mut g.out);
            for ix in t.ixs.iter().filter(|i| i.mango) {
                m.ix(&t, ix, &mut g.out);
            }
        }
        let neg = |b: &mango_v4::state::Bank| b.deposit_index <= fixed::types::I80F48::ZERO;
        g.spoiled = t.ixs.iter().any(|ix| {
            ix.is(&["token_liq_bankruptcy", "liq_token_bankruptcy"])
                && ix.changed().iter().any(|k| match (ix.pre.banks.get(k), ix.post.banks.get(k)) {
                    (Some(x), Some(y)) => neg(y) && !neg(x),
                    _ => false,
                })
        });
        if g.spoiled {
            g.out.count("lenders-left-owing");
        }
        if g.out.violations.len() > n_before && std::env::var_os("SIM_TRACE").is_some() {
            eprintln!("violating transaction {:?} {:#?}", t.ixs.iter().map(|i| i.name).collect::<Vec<_>>(), rec.logs);
        }
    }
}

fn unforward(r: &IxRecord) -> IxRecord {
    if r.program_id != crate::svm::forward_id() || r.metas.is_empty() {
        return r.clone();
    }
    let mut x = r.clone();
    x.program_id = x.metas.remove(0).pubkey;
    if !x.cpis.is_empty() {
        x.cpis.remove(0);
    }
    x
}
/// the accounts (key, signs) and data the program was, or would have been, handed
pub fn unforward_raw(ix: &solana_program::instruction::Instruction) -> (Vec<(Pubkey, bool)>, Vec<u8>) {
    let skip = (ix.program_id == crate::svm::forward_id()) as usize;
    (ix.accounts.iter().skip(skip).map(|m| (m.pubkey, m.is_signer)).collect(), ix.data.clone())
}
