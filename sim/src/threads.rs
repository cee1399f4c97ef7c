//! The threads of the simulated program.  They are real threads, but one runs at a time: a call is
//! handed to its thread and the executor waits until it is done, or until one of its reads pauses;
//! then another call, of another thread, may be made in between.
use std::cell::{Cell, RefCell};
use std::sync::atomic::{AtomicBool, AtomicI32, Ordering::SeqCst};
use std::sync::mpsc::{channel, Receiver, Sender};
use std::sync::Arc;
use std::thread::JoinHandle;

type Job = Box<dyn FnOnce() + Send>;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Msg {
    Done,
    Paused,
}

struct Link {
    tell: Sender<Msg>,
    pipe: i32,
    go: Receiver<()>,
    free: Arc<AtomicBool>,
}

thread_local! {
    static LINK: RefCell<Option<Link>> = RefCell::new(None);
}

pub struct Worker {
    jobs: Option<Sender<Job>>,
    heard: Receiver<Msg>,
    pipe: (i32, i32),
    go: Sender<()>,
    /// the thread no longer stops at pauses
    free: Arc<AtomicBool>,
    join: Option<JoinHandle<()>>,
    tid: Arc<AtomicI32>,
    over: Cell<bool>,
}

/// Lets the executor make another call now, if this is one of the threads of the program.
pub fn pause() {
    LINK.with(|l| {
        if let Some(l) = &*l.borrow() {
            if !l.free.load(SeqCst) {
                say(l, Msg::Paused);
                let _ = l.go.recv();
            }
        }
    })
}

fn say(l: &Link, m: Msg) {
    let _ = l.tell.send(m);
    unsafe { libc::syscall(libc::SYS_write, l.pipe, b"x".as_ptr(), 1usize) };
}

impl Worker {
    pub fn new(k: usize, entropy: u64, dirs: Vec<std::path::PathBuf>) -> Worker {
        let mut p = [0i32; 2];
        assert_eq!(unsafe { libc::pipe2(p.as_mut_ptr(), libc::O_CLOEXEC) }, 0, "harness: pipe");
        let (jobs, inbox) = channel::<Job>();
        let (tell, heard) = channel();
        let (go, gone) = channel();
        let free = Arc::new(AtomicBool::new(false));
        let (f2, w) = (free.clone(), p[1]);
        let tid = Arc::new(AtomicI32::new(0));
        let t2 = tid.clone();
        let join = std::thread::Builder::new().stack_size(8 << 20).spawn(move || {
            t2.store(unsafe { libc::syscall(libc::SYS_gettid) } as i32, SeqCst);
            crate::env::set_cur(k);
            crate::kernel::set_entropy(entropy);
            crate::kernel::set_scratch(&dirs);
            LINK.with(|l| *l.borrow_mut() = Some(Link { tell, pipe: w, go: gone, free: f2 }));
            for j in inbox {
                j();
                LINK.with(|l| say(l.borrow().as_ref().unwrap(), Msg::Done));
            }
        });
        Worker { jobs: Some(jobs), heard, pipe: (p[0], p[1]), go, free, join: Some(join.expect("harness: thread")), tid, over: Cell::new(false) }
    }

    /// Safety: the caller waits for `Done` before anything the job uses goes away.
    pub unsafe fn give<'a>(&self, j: Box<dyn FnOnce() + 'a>) {
        self.free.store(false, SeqCst);
        self.over.set(false);
        let j: Job = std::mem::transmute::<Box<dyn FnOnce() + 'a>, Job>(j);
        self.jobs.as_ref().unwrap().send(j).expect("harness: a thread is gone");
    }

    /// What the thread says next; None (if that is asked for) when it waits for something.
    pub fn hear(&self, notice: bool) -> Option<Msg> {
        // the clock is a simulated one here, so that waiting is left to the kernel
        let mut p = libc::pollfd { fd: self.pipe.0, events: libc::POLLIN, revents: 0 };
        let mut asleep = 0;
        loop {
            let n = unsafe { libc::syscall(libc::SYS_poll, &mut p as *mut _, 1usize, if notice { 10 } else { -1 }) };
            if n > 0 {
                break;
            }
            asleep = if n == 0 && self.sleeps() { asleep + 1 } else { 0 };
            if asleep == 5 {
                return None;
            }
        }
        let mut b = [0u8; 1];
        unsafe { libc::syscall(libc::SYS_read, self.pipe.0, b.as_mut_ptr(), 1usize) };
        self.heard.recv().ok()
    }

    /// Nothing it does takes time, so a thread that sleeps waits for another one.
    fn sleeps(&self) -> bool {
        let s = std::fs::read_to_string(format!("/proc/self/task/{}/stat", self.tid.load(SeqCst))).unwrap_or_default();
        s.rsplit(')').next().map_or(false, |r| r.trim_start().starts_with('S'))
    }

    pub fn stops(&self) -> bool {
        !self.free.load(SeqCst)
    }

    pub fn resume(&self) {
        let _ = self.go.send(());
    }

    /// From now on it does not stop.
    pub fn release(&self) {
        if !self.free.swap(true, SeqCst) {
            self.resume();
        }
    }

    /// Waits for the end of its call.
    pub fn finish(&self) {
        while !self.ended() {
            if self.hear(false) == Some(Msg::Done) {
                self.over.set(true);
            }
        }
    }

    /// Whether that has been heard.
    pub fn ended(&self) -> bool {
        self.over.get()
    }
}

impl Drop for Worker {
    fn drop(&mut self) {
        self.jobs = None;
        if let Some(j) = self.join.take() {
            let _ = j.join();
        }
        unsafe {
            libc::syscall(libc::SYS_close, self.pipe.0);
            libc::syscall(libc::SYS_close, self.pipe.1);
        }
    }
}
