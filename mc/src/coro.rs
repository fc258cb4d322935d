//! Stackful coroutines for x86_64 System V.
use std::any::Any;
use std::cell::{Cell, RefCell};
use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};
use std::sync::Mutex;

#[cfg(not(all(target_arch = "x86_64", target_os = "linux")))]
compile_error!("the coroutine switch is written for x86_64 linux");

std::arch::global_asm!(
    ".global mc_coro_switch",
    "mc_coro_switch:",
    "push rbp",
    "push rbx",
    "push r12",
    "push r13",
    "push r14",
    "push r15",
    "mov [rdi], rsp",
    "mov rsp, rsi",
    "pop r15",
    "pop r14",
    "pop r13",
    "pop r12",
    "pop rbx",
    "pop rbp",
    "ret",
);

extern "C" {
    fn mc_coro_switch(save: *mut *mut u8, to: *mut u8);
    fn mmap(a: *mut u8, l: usize, p: i32, f: i32, fd: i32, o: i64) -> *mut u8;
    fn mprotect(a: *mut u8, l: usize, p: i32) -> i32;
}

const STACK: usize = 512 * 1024;
const GUARD: usize = 4096;

struct Stack(*mut u8);
unsafe impl Send for Stack {}
static POOL: Mutex<Vec<Stack>> = Mutex::new(Vec::new());

fn take_stack() -> *mut u8 {
    if let Some(s) = POOL.lock().unwrap().pop() {
        return s.0;
    }
    unsafe {
        let p = mmap(std::ptr::null_mut(), STACK, 3, 0x22 | 0x4000, -1, 0);
        assert!(p as isize != -1, "mmap of a coroutine stack failed");
        assert_eq!(mprotect(p, GUARD, 0), 0);
        p
    }
}

/// Payload used to unwind a coroutine whose execution is over.
pub struct Cancel;

pub enum Exit {
    Done,
    Panicked(Box<dyn Any + Send>),
}

struct Inner {
    sp: *mut u8,
    caller_sp: *mut u8,
    stack: *mut u8,
    entry: Option<Box<dyn FnOnce()>>,
    exit: Option<Exit>,
    cancel: bool,
    started: bool,
}

pub struct Coro(Box<Inner>);

thread_local! {
    static CURRENT: Cell<*mut Inner> = const { Cell::new(std::ptr::null_mut()) };
    /// Set while a coroutine that panicked (trapped) is being unwound: the modelled process is
    /// already dead, so host calls made by destructors have no effect.
    pub static DYING: Cell<bool> = const { Cell::new(false) };
    pub static LAST_PANIC: RefCell<Option<String>> = const { RefCell::new(None) };
}

extern "C" fn start() -> ! {
    let inner = CURRENT.with(|c| c.get());
    unsafe {
        let entry = (*inner).entry.take().unwrap();
        let r = catch_unwind(AssertUnwindSafe(entry));
        DYING.with(|d| d.set(false));
        (*inner).exit = Some(match r {
            Ok(()) => Exit::Done,
            Err(e) => Exit::Panicked(e),
        });
        let mut dummy: *mut u8 = std::ptr::null_mut();
        mc_coro_switch(&mut dummy, (*inner).caller_sp);
    }
    std::process::abort()
}

impl Coro {
    pub fn new(f: impl FnOnce() + 'static) -> Coro {
        let stack = take_stack();
        let mut sp = unsafe { stack.add(STACK) } as *mut usize;
        unsafe {
            sp = sp.sub(1); // alignment slot
            *sp = 0;
            sp = sp.sub(1);
            *sp = start as *const () as usize;
            for _ in 0..6 {
                sp = sp.sub(1);
                *sp = 0;
            }
        }
        Coro(Box::new(Inner {
            sp: sp as *mut u8,
            caller_sp: std::ptr::null_mut(),
            stack,
            entry: Some(Box::new(f)),
            exit: None,
            cancel: false,
            started: false,
        }))
    }

    /// Run until the next `suspend` or the end; `true` once finished.
    pub fn resume(&mut self) -> bool {
        if self.0.exit.is_some() {
            return true;
        }
        self.0.started = true;
        let p: *mut Inner = &mut *self.0;
        unsafe { Coro::resume_raw(p) }
    }

    /// A raw handle, so that a scheduler need not keep a borrow across the switch.
    pub fn raw(&mut self) -> *mut () {
        (&mut *self.0 as *mut Inner) as *mut ()
    }

    /// # Safety
    /// `h` comes from `raw` of a live coroutine that is not running.
    pub unsafe fn resume_handle(h: *mut ()) -> bool {
        let p = h as *mut Inner;
        if (*p).exit.is_some() {
            return true;
        }
        (*p).started = true;
        Coro::resume_raw(p)
    }

    unsafe fn resume_raw(p: *mut Inner) -> bool {
        let prev = CURRENT.with(|c| c.replace(p));
        mc_coro_switch(&mut (*p).caller_sp, (*p).sp);
        CURRENT.with(|c| c.set(prev));
        (*p).exit.is_some()
    }

    pub fn take_exit(&mut self) -> Option<Exit> {
        self.0.exit.take().map(|e| {
            self.0.exit = Some(Exit::Done);
            e
        })
    }

    /// Unwind a coroutine that has not finished.
    pub fn cancel(&mut self) {
        if self.0.exit.is_some() {
            return;
        }
        if !self.0.started {
            self.0.entry = None;
            self.0.exit = Some(Exit::Done);
            return;
        }
        self.0.cancel = true;
        let done = self.resume();
        assert!(done, "a cancelled coroutine suspended again");
    }

    /// Forget the coroutine without unwinding it (its heap objects leak).
    pub fn abandon(mut self) {
        self.0.exit = Some(Exit::Done);
    }
}

impl Drop for Coro {
    fn drop(&mut self) {
        self.cancel();
        POOL.lock().unwrap().push(Stack(self.0.stack));
    }
}

pub fn in_coro() -> bool {
    CURRENT.with(|c| !c.get().is_null())
}

/// Give control back to whoever resumed the running coroutine.
pub fn suspend() {
    let p = CURRENT.with(|c| c.get());
    assert!(!p.is_null(), "suspend outside a coroutine");
    unsafe {
        mc_coro_switch(&mut (*p).sp, (*p).caller_sp);
        if (*p).cancel {
            DYING.with(|d| d.set(true));
            resume_unwind(Box::new(Cancel));
        }
    }
}

/// A coroutine that is being unwound waits for something that will never come (in a destructor, say):
/// it is abandoned here.
pub fn die() -> ! {
    let p = CURRENT.with(|c| c.get());
    assert!(!p.is_null(), "die outside a coroutine");
    DYING.with(|d| d.set(false));
    unsafe {
        (*p).exit = Some(Exit::Panicked(Box::new("died")));
        mc_coro_switch(&mut (*p).sp, (*p).caller_sp);
    }
    std::process::abort()
}

/// The reason a guarded computation did not return normally.
#[derive(Debug, Clone, PartialEq, Eq)]
pub enum Trap {
    Panic(String),
    Alloc(usize),
}

impl std::fmt::Display for Trap {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        match self {
            Trap::Panic(s) => write!(f, "panic: {s}"),
            Trap::Alloc(n) => write!(f, "allocation of {n} bytes requested"),
        }
    }
}

thread_local! {
    static ALLOC_TRAP: Cell<usize> = const { Cell::new(0) };
    static NO_TRAP: Cell<u32> = const { Cell::new(0) };
}

/// Allocations larger than this trap the modelled process (a wasm32 process has at most 4 GiB of
/// memory in total, so such a request can never be met there).
pub const ALLOC_LIMIT: usize = 1 << 31;

pub fn alloc_trap_pending() -> Option<usize> {
    match ALLOC_TRAP.with(|a| a.replace(0)) {
        0 => None,
        n => Some(n),
    }
}

/// Global allocator: an allocation beyond `ALLOC_LIMIT` made inside a coroutine traps it.
pub struct TrapAlloc;

unsafe impl std::alloc::GlobalAlloc for TrapAlloc {
    unsafe fn alloc(&self, l: std::alloc::Layout) -> *mut u8 {
        if l.size() >= ALLOC_LIMIT {
            trap_alloc(l.size());
        }
        std::alloc::System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: std::alloc::Layout) -> *mut u8 {
        if l.size() >= ALLOC_LIMIT {
            trap_alloc(l.size());
        }
        std::alloc::System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: std::alloc::Layout) {
        std::alloc::System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: std::alloc::Layout, n: usize) -> *mut u8 {
        if n >= ALLOC_LIMIT {
            trap_alloc(n);
        }
        std::alloc::System.realloc(p, l, n)
    }
}

fn trap_alloc(size: usize) {
    if in_coro() && NO_TRAP.with(|n| n.get()) == 0 {
        ALLOC_TRAP.with(|a| a.set(size));
        let p = CURRENT.with(|c| c.get());
        unsafe { mc_coro_switch(&mut (*p).sp, (*p).caller_sp) };
        // never resumed: the coroutine is abandoned
        std::process::abort();
    }
}

fn payload_text(e: &(dyn Any + Send)) -> String {
    if let Some(s) = e.downcast_ref::<&str>() {
        s.to_string()
    } else if let Some(s) = e.downcast_ref::<String>() {
        s.clone()
    } else {
        "panic".to_string()
    }
}

pub fn panic_text(e: &(dyn Any + Send)) -> String {
    LAST_PANIC
        .with(|l| l.borrow_mut().take())
        .unwrap_or_else(|| payload_text(e))
}

/// Run `f` the way a Lunatic process would run it: a panic or an impossible allocation is a trap.
/// Engine control payloads (violations, pruning) pass through.
pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, Trap> {
    let mut slot: Option<T> = None;
    let out: *mut Option<T> = &mut slot;
    let body: Box<dyn FnOnce() + '_> = Box::new(move || {
        let v = f();
        unsafe { *out = Some(v) };
    });
    // The coroutine finishes or is abandoned before this function returns, so the borrow is live
    // for as long as the closure can run.
    let body: Box<dyn FnOnce() + 'static> = unsafe { std::mem::transmute(body) };
    let mut c = Coro::new(body);
    loop {
        let done = c.resume();
        if let Some(n) = alloc_trap_pending() {
            c.abandon();
            return Err(Trap::Alloc(n));
        }
        if done {
            break;
        }
        panic!("a guarded computation suspended");
    }
    match c.take_exit() {
        Some(Exit::Panicked(e)) => {
            if crate::engine::is_control(&*e) {
                resume_unwind(e)
            }
            Err(Trap::Panic(panic_text(&*e)))
        }
        _ => Ok(slot.take().expect("guarded result")),
    }
}
