//! A sorted array with the subset of the Slab interface mango uses.
use bytemuck::{Pod, Zeroable};

pub type NodeHandle = u32;

#[derive(Clone, Copy, Pod, Zeroable, Debug)]
#[repr(C, packed)]
pub struct Entry {
    pub key: u128,
    pub owner: [u8; 32],
    pub owner_slot: u64,
    pub qty: u64,
    pub client_order_id: u64,
}
impl Entry {
    pub fn price(&self) -> u64 {
        (self.key >> 64) as u64
    }
}

#[repr(transparent)]
pub struct Slab([u8]);

const ES: usize = std::mem::size_of::<Entry>();

impl Slab {
    pub fn new(bytes: &mut [u8]) -> &mut Self {
        // repr(transparent) over [u8]
        unsafe { &mut *(bytes as *mut [u8] as *mut Slab) }
    }
    pub fn len(&self) -> usize {
        u64::from_le_bytes(self.0[..8].try_into().unwrap()) as usize
    }
    pub fn capacity(&self) -> usize {
        (self.0.len() - 8) / ES
    }
    pub fn entries(&self) -> &[Entry] {
        bytemuck::cast_slice(&self.0[8..8 + self.len() * ES])
    }
    pub fn entry_mut(&mut self, i: usize) -> &mut Entry {
        bytemuck::from_bytes_mut(&mut self.0[8 + i * ES..8 + (i + 1) * ES])
    }
    fn set_len(&mut self, n: usize) {
        self.0[..8].copy_from_slice(&(n as u64).to_le_bytes());
    }
    pub fn find_by_key(&self, key: u128) -> Option<NodeHandle> {
        self.entries().iter().position(|e| { e.key } == key).map(|i| i as u32)
    }
    pub fn insert(&mut self, e: Entry) -> bool {
        let n = self.len();
        if n >= self.capacity() {
            return false;
        }
        let pos = self.entries().iter().position(|x| { x.key } > { e.key }).unwrap_or(n);
        self.0.copy_within(8 + pos * ES..8 + n * ES, 8 + (pos + 1) * ES);
        *self.entry_mut(pos) = e;
        self.set_len(n + 1);
        true
    }
    pub fn remove_at(&mut self, i: usize) -> Entry {
        let e = self.entries()[i];
        let n = self.len();
        self.0.copy_within(8 + (i + 1) * ES..8 + n * ES, 8 + i * ES);
        self.set_len(n - 1);
        e
    }
}
