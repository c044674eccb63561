//! Stands in for the allocator crate: every use of an allocator state is checked against a ledger.
//! The state is also ordinary memory, so that unordered uses of it are data races.
#![no_std]
extern crate alloc;
use alloc::boxed::Box;

#[derive(Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub enum Error {
    InvalidState,
    OutOfMemory,
    TooManyHandles,
    InvalidArgument,
    FailedToOpenAnonymousMemory,
    TooLarge,
}

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum ProtectJitAccess {
    ReadWrite = 0,
    ReadExecute = 1,
}

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum ResetPolicy {
    Soft = 0,
    Hard = 1,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct JitAllocatorOptions {
    pub use_dual_mapping: bool,
    pub use_multiple_pools: bool,
    pub fill_unused_memory: bool,
    pub immediate_release: bool,
    pub custom_fill_pattern: Option<u32>,
    pub block_size: u32,
    pub granularity: u32,
}

impl Default for JitAllocatorOptions {
    fn default() -> Self {
        Self {
            use_dual_mapping: true,
            use_multiple_pools: true,
            fill_unused_memory: true,
            immediate_release: false,
            custom_fill_pattern: None,
            block_size: 0,
            granularity: 0,
        }
    }
}

extern "C" {
    fn mc_state_new() -> i32;
    fn mc_state_drop(id: i32);
    fn mc_state_enter(id: i32, release: i32);
    fn mc_state_exit(id: i32);
    fn mc_state_alloc(id: i32, size: usize) -> *mut u8;
    fn mc_state_release(id: i32, p: *const u8) -> i32;
    fn mc_point(object: *const u8);
}

pub struct JitAllocator {
    id: i32,
    uses: u64,
    _not_sync: *const u8,
}

unsafe impl Send for JitAllocator {}

impl JitAllocator {
    pub fn new(_: JitAllocatorOptions) -> Box<Self> {
        let mut it = Box::new(Self { id: unsafe { mc_state_new() }, uses: 0, _not_sync: core::ptr::null() });
        unsafe { mc_point(&*it as *const Self as *const u8) };
        it.uses = 1;
        it
    }

    fn busy<T>(&mut self, release: bool, f: impl FnOnce(i32) -> T) -> T {
        unsafe {
            mc_state_enter(self.id, release as i32);
            self.uses += 1;
            mc_point(self as *const Self as *const u8);
            let r = f(self.id);
            self.uses += 1;
            mc_point(self as *const Self as *const u8);
            mc_state_exit(self.id);
            r
        }
    }

    pub fn alloc(&mut self, size: usize) -> Result<(*const u8, *mut u8), Error> {
        let p = self.busy(false, |id| unsafe { mc_state_alloc(id, size) });
        if p.is_null() {
            return Err(Error::OutOfMemory);
        }
        Ok((p as *const u8, p))
    }

    /// # Safety
    /// As the real one.
    pub unsafe fn release(&mut self, rx_ptr: *const u8) -> Result<(), Error> {
        match self.busy(true, |id| mc_state_release(id, rx_ptr)) {
            0 => Ok(()),
            _ => Err(Error::InvalidState),
        }
    }
}

impl Drop for JitAllocator {
    fn drop(&mut self) {
        unsafe { mc_state_drop(self.id) }
    }
}

pub fn protect_jit_memory(_: ProtectJitAccess) {}

pub fn flush_instruction_cache(_: *const u8, _: usize) {}
