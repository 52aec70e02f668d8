//! Stand-in for `tokio`, used only to compile /repo/src/main.rs for exploration.
//!
//! Everything is the real tokio, except the sources of nondeterminism, which the harness
//! owns: standard input/output, the top-level executor, spawned tasks and timers.
pub use real_tokio::*;

pub mod io {
    pub use crate::ctl::{Stdin, Stdout};
    pub use real_tokio::io::*;
    pub fn stdin() -> Stdin {
        Stdin(crate::ctl::current())
    }
    pub fn stdout() -> Stdout {
        Stdout(crate::ctl::current())
    }
}

pub mod runtime {
    pub use real_tokio::runtime::Handle;
    use std::future::Future;

    #[derive(Debug, Default)]
    pub struct Builder(());
    impl Builder {
        pub fn new_multi_thread() -> Builder {
            Builder(())
        }
        pub fn new_current_thread() -> Builder {
            Builder(())
        }
        pub fn enable_all(&mut self) -> &mut Self {
            self
        }
        pub fn enable_io(&mut self) -> &mut Self {
            self
        }
        pub fn enable_time(&mut self) -> &mut Self {
            self
        }
        pub fn worker_threads(&mut self, _: usize) -> &mut Self {
            self
        }
        pub fn max_blocking_threads(&mut self, _: usize) -> &mut Self {
            self
        }
        pub fn thread_stack_size(&mut self, _: usize) -> &mut Self {
            self
        }
        pub fn thread_name(&mut self, _: impl Into<String>) -> &mut Self {
            self
        }
        pub fn build(&mut self) -> std::io::Result<Runtime> {
            Ok(Runtime(()))
        }
    }
    #[derive(Debug)]
    pub struct Runtime(());
    impl Runtime {
        pub fn new() -> std::io::Result<Runtime> {
            Ok(Runtime(()))
        }
        /// Captures the future instead of running it; the harness polls it.
        pub fn block_on<F: Future<Output = ()> + 'static>(&self, f: F) {
            crate::ctl::current().lock().main = Some(Box::pin(f));
        }
        pub fn shutdown_background(self) {}
        pub fn shutdown_timeout(self, _: std::time::Duration) {}
        pub fn spawn<F>(&self, f: F) -> crate::task::JoinHandle<F::Output>
        where
            F: Future + Send + 'static,
            F::Output: Send + 'static,
        {
            crate::task::spawn(f)
        }
    }
}

pub use task::spawn;

pub mod task {
    pub use crate::ctl::{JoinError, JoinHandle};
    pub use real_tokio::task::*;
    use std::future::Future;

    pub fn spawn<F>(f: F) -> JoinHandle<F::Output>
    where
        F: Future + Send + 'static,
        F::Output: Send + 'static,
    {
        crate::ctl::spawn(f)
    }
    pub fn spawn_blocking<F, R>(f: F) -> JoinHandle<R>
    where
        F: FnOnce() -> R + Send + 'static,
        R: Send + 'static,
    {
        crate::ctl::spawn(async move { f() })
    }
    pub fn block_in_place<F, R>(f: F) -> R
    where
        F: FnOnce() -> R,
    {
        f()
    }
}

pub mod time {
    pub use crate::ctl::{sleep, Sleep};
    pub use real_tokio::time::*;
    use std::future::Future;
    use std::pin::pin;
    use std::task::Poll;

    pub mod error {
        #[derive(Debug, PartialEq, Eq)]
        pub struct Elapsed(pub(crate) ());
        impl std::fmt::Display for Elapsed {
            fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
                f.write_str("deadline has elapsed")
            }
        }
        impl std::error::Error for Elapsed {}
    }
    pub async fn timeout<F: Future>(after: std::time::Duration, f: F) -> Result<F::Output, error::Elapsed> {
        let (mut f, mut t) = (pin!(f), pin!(sleep(after)));
        std::future::poll_fn(|cx| match f.as_mut().poll(cx) {
            Poll::Ready(v) => Poll::Ready(Ok(v)),
            Poll::Pending => t.as_mut().poll(cx).map(|()| Err(error::Elapsed(()))),
        })
        .await
    }
    pub fn sleep_until(at: Instant) -> Sleep {
        sleep(at.saturating_duration_since(Instant::now()))
    }
    pub async fn timeout_at<F: Future>(at: Instant, f: F) -> Result<F::Output, error::Elapsed> {
        timeout(at.saturating_duration_since(Instant::now()), f).await
    }
}

pub mod ctl {
    use real_tokio::io::{AsyncRead, AsyncWrite, ReadBuf};
    use std::cell::RefCell;
    use std::collections::VecDeque;
    use std::future::Future;
    use std::pin::Pin;
    use std::sync::atomic::{AtomicBool, Ordering::SeqCst};
    use std::sync::{Arc, Mutex, MutexGuard};
    use std::task::{Context, Poll, Wake, Waker};

    pub type LocalFuture = Pin<Box<dyn Future<Output = ()>>>;
    pub type TaskFuture = Pin<Box<dyn Future<Output = ()> + Send>>;

    /// Everything one server instance can observe of the outside world.
    #[derive(Default)]
    pub struct World {
        pub main: Option<LocalFuture>,
        pub input: VecDeque<u8>,
        pub input_eof: bool,
        pub read_waker: Option<Waker>,
        pub output: Vec<u8>,
        /// How many more bytes stdout accepts; `None`: unlimited.
        pub out_credit: Option<usize>,
        /// The reading end is gone: every write fails.
        pub out_broken: bool,
        pub write_waker: Option<Waker>,
        pub write_blocked: bool,
        pub tasks: Vec<Task>,
        pub timers: Vec<Timer>,
    }
    pub struct Task {
        pub fut: Option<TaskFuture>,
        pub flag: Arc<Flag>,
    }
    pub struct Timer {
        pub fired: Arc<AtomicBool>,
        pub after: std::time::Duration,
        pub waker: Option<Waker>,
        pub done: bool,
    }
    #[derive(Default)]
    pub struct Flag(pub AtomicBool);
    impl Wake for Flag {
        fn wake(self: Arc<Self>) {
            self.0.store(true, SeqCst)
        }
        fn wake_by_ref(self: &Arc<Self>) {
            self.0.store(true, SeqCst)
        }
    }

    // Only ever touched from the thread that owns the session; the wrapper merely lets the
    // handles satisfy `Send` bounds the server code may impose.
    #[derive(Clone, Default)]
    pub struct WorldRef(Arc<Mutex<WorldBox>>);
    #[derive(Default)]
    struct WorldBox(World);
    unsafe impl Send for WorldBox {}
    pub struct WorldGuard<'a>(MutexGuard<'a, WorldBox>);
    impl std::ops::Deref for WorldGuard<'_> {
        type Target = World;
        fn deref(&self) -> &World {
            &self.0 .0
        }
    }
    impl std::ops::DerefMut for WorldGuard<'_> {
        fn deref_mut(&mut self) -> &mut World {
            &mut self.0 .0
        }
    }
    impl WorldRef {
        pub fn lock(&self) -> WorldGuard<'_> {
            WorldGuard(match self.0.lock() {
                Ok(g) => g,
                Err(p) => p.into_inner(),
            })
        }
    }
    impl std::fmt::Debug for WorldRef {
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
            f.write_str("World")
        }
    }

    thread_local! {
        static CURRENT: RefCell<Option<WorldRef>> = const { RefCell::new(None) };
        static RT: real_tokio::runtime::Runtime =
            real_tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap();
    }
    pub fn current() -> WorldRef {
        CURRENT.with(|c| c.borrow().clone()).expect("no server session is being run")
    }
    /// Runs `f` with `w` as the world the server code sees.
    pub fn with_world<R>(w: &WorldRef, f: impl FnOnce() -> R) -> R {
        struct Reset(Option<WorldRef>);
        impl Drop for Reset {
            fn drop(&mut self) {
                let old = self.0.take();
                CURRENT.with(|c| *c.borrow_mut() = old)
            }
        }
        let _reset = Reset(CURRENT.with(|c| c.borrow_mut().replace(w.clone())));
        RT.with(|rt| {
            let _enter = rt.enter();
            f()
        })
    }

    #[derive(Debug)]
    pub struct Stdin(pub(crate) WorldRef);
    impl AsyncRead for Stdin {
        fn poll_read(
            self: Pin<&mut Self>,
            cx: &mut Context<'_>,
            buf: &mut ReadBuf<'_>,
        ) -> Poll<std::io::Result<()>> {
            let mut w = self.0.lock();
            if w.input.is_empty() {
                if w.input_eof {
                    return Poll::Ready(Ok(()));
                }
                w.read_waker = Some(cx.waker().clone());
                return Poll::Pending;
            }
            let n = buf.remaining().min(w.input.len());
            let (a, b) = w.input.as_slices();
            let na = n.min(a.len());
            buf.put_slice(&a[..na]);
            buf.put_slice(&b[..n - na]);
            w.input.drain(..n);
            Poll::Ready(Ok(()))
        }
    }
    #[derive(Debug)]
    pub struct Stdout(pub(crate) WorldRef);
    impl AsyncWrite for Stdout {
        fn poll_write(
            self: Pin<&mut Self>,
            cx: &mut Context<'_>,
            buf: &[u8],
        ) -> Poll<std::io::Result<usize>> {
            let mut w = self.0.lock();
            if w.out_broken {
                return Poll::Ready(Err(std::io::ErrorKind::BrokenPipe.into()));
            }
            let n = match w.out_credit {
                None => buf.len(),
                Some(0) => {
                    w.write_waker = Some(cx.waker().clone());
                    w.write_blocked = true;
                    return Poll::Pending;
                }
                Some(c) => {
                    let n = c.min(buf.len());
                    w.out_credit = Some(c - n);
                    n
                }
            };
            w.write_blocked = false;
            w.output.extend_from_slice(&buf[..n]);
            Poll::Ready(Ok(n))
        }
        fn poll_flush(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<std::io::Result<()>> {
            Poll::Ready(Ok(()))
        }
        fn poll_shutdown(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<std::io::Result<()>> {
            Poll::Ready(Ok(()))
        }
    }

    #[derive(Debug)]
    pub struct JoinError(());
    impl std::fmt::Display for JoinError {
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
            f.write_str("task failed")
        }
    }
    impl std::error::Error for JoinError {}
    #[derive(Debug)]
    pub struct JoinHandle<T>(real_tokio::sync::oneshot::Receiver<T>, Arc<AtomicBool>);
    impl<T> JoinHandle<T> {
        pub fn abort(&self) {
            self.1.store(true, SeqCst)
        }
    }
    impl<T> Future for JoinHandle<T> {
        type Output = Result<T, JoinError>;
        fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
            Pin::new(&mut self.0).poll(cx).map(|r| r.map_err(|_| JoinError(())))
        }
    }
    pub fn spawn<F>(f: F) -> JoinHandle<F::Output>
    where
        F: Future + Send + 'static,
        F::Output: Send + 'static,
    {
        let (tx, rx) = real_tokio::sync::oneshot::channel();
        let abort = Arc::new(AtomicBool::new(false));
        let abort2 = abort.clone();
        let flag = Arc::new(Flag::default());
        flag.0.store(true, SeqCst);
        let mut f = Box::pin(f);
        let mut tx = Some(tx);
        let fut = Box::pin(std::future::poll_fn(move |cx| {
            if abort2.load(SeqCst) {
                return Poll::Ready(());
            }
            match f.as_mut().poll(cx) {
                Poll::Pending => Poll::Pending,
                Poll::Ready(v) => {
                    if let Some(tx) = tx.take() {
                        let _ = tx.send(v);
                    }
                    Poll::Ready(())
                }
            }
        }));
        current().lock().tasks.push(Task { fut: Some(fut), flag });
        JoinHandle(rx, abort)
    }

    /// A virtual timer: it fires when the harness lets time pass.
    #[derive(Debug)]
    pub struct Sleep {
        world: WorldRef,
        after: std::time::Duration,
        id: Option<usize>,
    }
    pub fn sleep(after: std::time::Duration) -> Sleep {
        Sleep { world: current(), after, id: None }
    }
    impl Drop for Sleep {
        fn drop(&mut self) {
            if let Some(i) = self.id {
                // Not when the whole world is being torn down.
                if let Ok(mut w) = self.world.0.try_lock() {
                    if let Some(t) = w.0.timers.get_mut(i) {
                        t.done = true;
                    }
                }
            }
        }
    }
    impl Future for Sleep {
        type Output = ();
        fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
            let world = self.world.clone();
            let mut w = world.lock();
            match self.id {
                None => {
                    self.id = Some(w.timers.len());
                    w.timers.push(Timer {
                        fired: Default::default(),
                        after: self.after,
                        waker: Some(cx.waker().clone()),
                        done: false,
                    });
                    Poll::Pending
                }
                Some(i) => {
                    if w.timers[i].fired.load(SeqCst) {
                        w.timers[i].done = true;
                        Poll::Ready(())
                    } else {
                        w.timers[i].waker = Some(cx.waker().clone());
                        Poll::Pending
                    }
                }
            }
        }
    }
}
