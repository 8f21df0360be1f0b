//! The code under test, instantiated. Compiled (with congee itself) by the instrumenting
//! wrapper, so every memory access of the tree is a scheduling point of the simulator.
use congee::epoch::{pin, Guard};
use congee::{Allocator, Congee, DefaultAllocator, SimOOMError, U64Congee};
use std::alloc::Layout;
use std::ptr::NonNull;

pub type CasResult = Result<Option<usize>, Option<usize>>;
pub struct Oom;

pub trait Tree: Send + Sync {
    fn pin(&self) -> Guard;
    fn get(&self, k: usize, g: &Guard) -> Option<usize>;
    fn insert(&self, k: usize, v: usize, g: &Guard) -> Result<Option<usize>, Oom>;
    fn remove(&self, k: usize, g: &Guard) -> Option<usize>;
    fn range(&self, lo: usize, hi: usize, buf: &mut [(usize, usize)], g: &Guard) -> usize;
    fn cip(&self, k: usize, f: &mut dyn FnMut(usize) -> Option<usize>, g: &Guard) -> Option<(usize, Option<usize>)>;
    fn coi(&self, k: usize, f: &mut dyn FnMut(Option<usize>) -> usize, g: &Guard) -> Result<Option<usize>, Oom>;
    fn cas(&self, k: usize, old: usize, new: Option<usize>, g: &Guard) -> CasResult;
    fn is_empty(&self, g: &Guard) -> bool;
    fn stats(&self) -> String;
}

/// Allocator behind the simulator's seam: each tree gets its own owner number.
#[derive(Clone)]
pub struct SimAlloc {
    pub owner: u32,
}

impl Allocator for SimAlloc {
    fn allocate(&self, layout: Layout) -> Result<NonNull<[u8]>, SimOOMError> {
        let p = rt::sim_alloc(layout.size(), layout.align(), self.owner);
        match NonNull::new(p) {
            Some(p) => Ok(NonNull::slice_from_raw_parts(p, layout.size())),
            None => Err(SimOOMError {}),
        }
    }
    unsafe fn deallocate(&self, ptr: NonNull<u8>, layout: Layout) {
        rt::sim_free(ptr.as_ptr() as usize, layout.size(), layout.align(), self.owner);
    }
}

macro_rules! newtype {
    ($n:ident, $x:expr) => {
        /// A user-defined key/value type whose representation differs from the integer.
        #[derive(Clone)]
        pub struct $n(usize);
        impl From<usize> for $n {
            fn from(x: usize) -> Self {
                $n(x ^ $x)
            }
        }
        impl From<$n> for usize {
            fn from(x: $n) -> usize {
                x.0 ^ $x
            }
        }
    };
}
newtype!(KeyT, 0x5a5a_1234_8765_a5a5);
newtype!(ValT, 0xc3c3_0ff0_55aa_0f0f);

impl<K, V, A> Tree for Wrap<Congee<K, V, A>>
where
    K: Clone + From<usize> + 'static,
    V: Clone + From<usize> + 'static,
    usize: From<K>,
    usize: From<V>,
    A: Allocator + Clone + Send + 'static,
{
    fn pin(&self) -> Guard {
        self.0.pin()
    }
    fn get(&self, k: usize, g: &Guard) -> Option<usize> {
        self.0.get(&K::from(k), g).map(usize::from)
    }
    fn insert(&self, k: usize, v: usize, g: &Guard) -> Result<Option<usize>, Oom> {
        match self.0.insert(K::from(k), V::from(v), g) {
            Ok(o) => Ok(o.map(usize::from)),
            Err(_) => Err(Oom),
        }
    }
    fn remove(&self, k: usize, g: &Guard) -> Option<usize> {
        self.0.remove(&K::from(k), g).map(usize::from)
    }
    fn range(&self, lo: usize, hi: usize, buf: &mut [(usize, usize)], g: &Guard) -> usize {
        self.0.range(&K::from(lo), &K::from(hi), buf, g)
    }
    fn cip(&self, k: usize, f: &mut dyn FnMut(usize) -> Option<usize>, g: &Guard) -> Option<(usize, Option<usize>)> {
        self.0.compute_if_present(&K::from(k), |o| f(o), g)
    }
    fn coi(&self, k: usize, f: &mut dyn FnMut(Option<usize>) -> usize, g: &Guard) -> Result<Option<usize>, Oom> {
        match self.0.compute_or_insert(K::from(k), |o| f(o), g) {
            Ok(o) => Ok(o.map(usize::from)),
            Err(_) => Err(Oom),
        }
    }
    fn cas(&self, k: usize, old: usize, new: Option<usize>, g: &Guard) -> CasResult {
        match self.0.compare_exchange(&K::from(k), &V::from(old), new.map(V::from), g) {
            Ok(o) => Ok(o.map(usize::from)),
            Err(o) => Err(o.map(usize::from)),
        }
    }
    fn is_empty(&self, g: &Guard) -> bool {
        self.0.is_empty(g)
    }
    fn stats(&self) -> String {
        self.0.stats().to_string()
    }
}

impl<V> Tree for Wrap<U64Congee<V>>
where
    V: Clone + From<usize> + Into<usize>,
{
    fn pin(&self) -> Guard {
        pin()
    }
    fn get(&self, k: usize, g: &Guard) -> Option<usize> {
        self.0.get(k as u64, g).map(|v| v.into())
    }
    fn insert(&self, k: usize, v: usize, g: &Guard) -> Result<Option<usize>, Oom> {
        match self.0.insert(k as u64, V::from(v), g) {
            Ok(o) => Ok(o.map(|v| v.into())),
            Err(_) => Err(Oom),
        }
    }
    fn remove(&self, k: usize, g: &Guard) -> Option<usize> {
        self.0.remove(k as u64, g).map(|v| v.into())
    }
    fn range(&self, lo: usize, hi: usize, buf: &mut [(usize, usize)], g: &Guard) -> usize {
        let mut b: Vec<([u8; 8], usize)> = buf.iter().map(|x| (x.0.to_be_bytes(), x.1)).collect();
        let n = self.0.range(lo as u64, hi as u64, &mut b, g);
        for (o, i) in buf.iter_mut().zip(b.iter()) {
            // the buffer holds the stored representation of a value
            *o = (usize::from_be_bytes(i.0), i.1);
        }
        n
    }
    fn cip(&self, _: usize, _: &mut dyn FnMut(usize) -> Option<usize>, _: &Guard) -> Option<(usize, Option<usize>)> {
        unreachable!()
    }
    fn coi(&self, _: usize, _: &mut dyn FnMut(Option<usize>) -> usize, _: &Guard) -> Result<Option<usize>, Oom> {
        unreachable!()
    }
    fn cas(&self, _: usize, _: usize, _: Option<usize>, _: &Guard) -> CasResult {
        unreachable!()
    }
    fn is_empty(&self, _: &Guard) -> bool {
        unreachable!()
    }
    fn stats(&self) -> String {
        unreachable!()
    }
}

struct Wrap<T>(T);
unsafe impl<T> Send for Wrap<T> {}
unsafe impl<T> Sync for Wrap<T> {}

pub const F_SIM: u8 = 0;
pub const F_DEFAULT: u8 = 1;
pub const F_U64: u8 = 2;
pub const F_TYPED: u8 = 3;
pub const F_DRAINLESS: u8 = 4;
pub const F_U64T: u8 = 5;
pub const F_DEFAULT_DRAINLESS: u8 = 6;
pub const FACADES: usize = 7;
pub fn is_u64(f: u8) -> bool {
    f == F_U64 || f == F_U64T
}
pub fn has_drainer(f: u8) -> bool {
    f == F_SIM || f == F_DEFAULT || f == F_TYPED
}
pub const FACADE_NAMES: [&str; FACADES] = [
    "Congee<usize,usize,SimAlloc>",
    "Congee<usize,usize,DefaultAllocator>",
    "U64Congee<usize>",
    "Congee<newtype,newtype,SimAlloc>",
    "Congee<usize,usize,SimAlloc> without drainer",
    "U64Congee<newtype>",
    "Congee<usize,usize>::default()",
];

/// The box is no node, whatever its size.
fn boxed<T: Tree + 'static>(made: &dyn Fn(), t: T) -> Box<dyn Tree> {
    made();
    Box::new(t)
}

pub fn make(facade: u8, owner: u32, drain: Box<dyn Fn(usize, usize)>, made: &dyn Fn()) -> Box<dyn Tree> {
    match facade {
        F_SIM => boxed(made, Wrap(Congee::<usize, usize, SimAlloc>::new_with_drainer(SimAlloc { owner }, drain))),
        F_DEFAULT => boxed(made, Wrap(Congee::<usize, usize>::new_with_drainer(DefaultAllocator {}, drain))),
        F_U64 => boxed(made, Wrap(U64Congee::<usize>::new())),
        F_U64T => boxed(made, Wrap(U64Congee::<ValT>::default())),
        F_DEFAULT_DRAINLESS => boxed(made, Wrap(Congee::<usize, usize>::default())),
        F_TYPED => boxed(made, Wrap(Congee::<KeyT, ValT, SimAlloc>::new_with_drainer(
            SimAlloc { owner },
            move |k, v| drain(usize::from(k), usize::from(v)),
        ))),
        _ => boxed(made, Wrap(Congee::<usize, usize, SimAlloc>::new(SimAlloc { owner }))),
    }
}
