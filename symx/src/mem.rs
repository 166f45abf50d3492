//! Symbolic memory: every object lives in its own 1 MiB slot of a flat 64-bit address
//! space, so that an out-of-bounds access never lands in another object; heap slots
//! are never reused, so that stale pointers are recognised.
use crate::expr::Eid;
use std::rc::Rc;

pub const SLOT: u64 = 20;
pub const OBASE: u64 = 0x1000;
pub const MAXOBJ: u64 = (1 << SLOT) - 2 * OBASE;
pub const FUNC_SLOT: u64 = 0x8000;
pub const STACK_SLOT: u64 = 0x10_0000;
pub const HEAP_SLOT: u64 = 0x100_0000;

#[derive(Clone)]
pub struct Obj {
    pub data: Vec<u8>,
    pub sym: Option<Box<[Eid]>>,
}

impl Obj {
    pub fn new(size: usize, fill: u8) -> Obj {
        Obj { data: vec![fill; size], sym: None }
    }
}

#[derive(Clone)]
pub enum HSlot {
    Freed,
    Live(Rc<Obj>),
}

const CH: usize = 32;

/// persistent vector of objects (copy on write in chunks)
#[derive(Clone, Default)]
pub struct PV {
    chunks: Vec<Rc<Vec<HSlot>>>,
    pub len: usize,
}

impl PV {
    pub fn push(&mut self, o: Obj) -> usize {
        let i = self.len;
        if i % CH == 0 {
            self.chunks.push(Rc::new(Vec::with_capacity(CH)));
        }
        Rc::make_mut(self.chunks.last_mut().unwrap()).push(HSlot::Live(Rc::new(o)));
        self.len += 1;
        i
    }
    #[inline]
    pub fn get(&self, i: usize) -> Option<&HSlot> {
        if i >= self.len {
            return None;
        }
        Some(&self.chunks[i / CH][i % CH])
    }
    pub fn get_mut(&mut self, i: usize) -> Option<&mut HSlot> {
        if i >= self.len {
            return None;
        }
        Some(&mut Rc::make_mut(&mut self.chunks[i / CH])[i % CH])
    }
}

#[derive(Clone)]
pub struct SSlot {
    pub size: u32,
    pub obj: Option<Rc<Obj>>,
}
