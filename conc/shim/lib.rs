//! Stands in for `std` when the crates under test are compiled for the exploration of
//! schedules: everything is the real thing, except that the primitives threads communicate
//! through first hand control to a scheduler. Threads that the scheduler does not know use
//! them as usual.
#![allow(clippy::all)]
pub use ::std::*;

/// The scheduler: one of its threads runs at a time, and who runs next is decided at each
/// use of a primitive, by a plan.
pub mod mc {
    use ::std::cell::RefCell;
    use ::std::sync::{Arc, Condvar, Mutex};
    use ::std::vec::Vec;

    #[derive(Clone, Copy, PartialEq, Debug)]
    enum St {
        Ready,
        Blocked(usize),
        Done,
    }

    #[derive(Clone, Copy, Debug)]
    pub struct Choice {
        /// how many threads could go on
        pub options: u8,
        /// which of them did; 0 is the one that ran, when it can go on
        pub chosen: u8,
        /// the running thread could have gone on
        pub forced: bool,
    }

    struct State {
        cur: usize,
        st: Vec<St>,
        plan: Vec<u8>,
        trace: Vec<Choice>,
        who: Vec<u8>,
        diverged: bool,
        deadlock: bool,
        livelock: bool,
        free: bool,
        alone: usize,
        steps: usize,
    }

    pub struct Sched {
        m: Mutex<State>,
        cv: Vec<Condvar>,
        done: Condvar,
    }

    const EXTERNAL: usize = 1;

    pub struct Outcome {
        /// some thread never ended
        pub stuck: bool,
        pub trace: Vec<Choice>,
        pub who: Vec<u8>,
        pub deadlock: bool,
        pub livelock: bool,
        pub diverged: bool,
    }

    ::std::thread_local! {
        static ME: RefCell<Option<(Arc<Sched>, usize)>> = const { RefCell::new(None) };
    }

    pub const UNCONTROLLED: usize = 1 << 20;
    pub fn me() -> usize {
        ME.try_with(|m| m.try_borrow().ok().and_then(|m| m.as_ref().map(|x| x.1))).ok().flatten().unwrap_or(UNCONTROLLED)
    }
    fn with<T>(f: impl FnOnce(&Sched, usize) -> T) -> Option<T> {
        let x = ME.try_with(|m| m.try_borrow().ok().and_then(|m| m.clone())).ok().flatten();
        x.map(|(s, i)| f(&s, i))
    }

    impl Sched {
        pub fn new(threads: usize, plan: Vec<u8>) -> Arc<Sched> {
            Arc::new(Sched {
                m: Mutex::new(State { cur: usize::MAX, st: ::std::vec![St::Ready; threads], plan, trace: ::std::vec![], who: ::std::vec![], diverged: false, deadlock: false, livelock: false, free: false, alone: 0, steps: 0 }),
                cv: (0..threads).map(|_| Condvar::new()).collect(),
                done: Condvar::new(),
            })
        }

        /// Choose who goes on. `yielding`: the running thread asks to go last.
        fn pick(&self, s: &mut State, me: Option<usize>, yielding: bool) {
            if s.free {
                return;
            }
            s.steps += 1;
            if s.steps > 200_000 {
                s.livelock = true;
                self.release(s);
                return;
            }
            let mut o: Vec<usize> = ::std::vec![];
            let mut can = false;
            if let Some(me) = me {
                if s.st[me] == St::Ready {
                    can = true;
                    o.push(me);
                }
            }
            for i in 0..s.st.len() {
                if Some(i) != me && s.st[i] == St::Ready {
                    o.push(i);
                }
            }
            if o.is_empty() {
                if s.st.iter().any(|x| matches!(x, St::Blocked(_))) {
                    s.deadlock = true;
                    self.release(s);
                }
                return;
            }
            // a thread that spins lets the others run
            let spinning = s.alone > 500;
            if can && (yielding || spinning) && o.len() > 1 {
                o.remove(0);
                s.alone = 0;
                can = false;
            }
            let mut c = 0;
            if o.len() > 1 {
                let k = s.trace.len();
                if k < s.plan.len() {
                    c = s.plan[k] as usize;
                    if c >= o.len() {
                        s.diverged = true;
                        c = 0;
                    }
                }
                s.trace.push(Choice { options: o.len() as u8, chosen: c as u8, forced: !can });
            }
            if Some(o[c]) == me {
                s.alone += 1;
            } else {
                s.alone = 0;
            }
            s.cur = o[c];
            if s.who.len() < 4000 {
                s.who.push(o[c] as u8);
            }
        }

        /// Something is wrong: let everything run (blocked threads panic).
        fn release(&self, s: &mut State) {
            s.free = true;
            for c in &self.cv {
                c.notify_all();
            }
        }

        fn wait(&self, mut s: ::std::sync::MutexGuard<State>, me: usize) {
            if s.cur != me && !s.free {
                self.cv[s.cur.min(self.cv.len() - 1)].notify_all();
                while s.cur != me && !s.free {
                    s = self.cv[me].wait(s).unwrap();
                }
            }
        }

        fn point(&self, me: usize, yielding: bool) {
            let mut s = self.m.lock().unwrap();
            if !s.free && s.st[me] == St::Blocked(EXTERNAL) {
                // it was waiting for something the scheduler does not see, and has got it
                s.st[me] = St::Ready;
                while s.cur != me && !s.free {
                    s = self.cv[me].wait(s).unwrap();
                }
            }
            if s.free {
                let stuck = s.livelock;
                drop(s);
                if stuck && !::std::thread::panicking() {
                    ::std::panic::resume_unwind(::std::boxed::Box::new("mc: stuck"));
                }
                return;
            }
            self.pick(&mut s, Some(me), yielding);
            self.wait(s, me);
        }

        fn block(&self, me: usize, addr: usize) {
            let mut s = self.m.lock().unwrap();
            if !s.free {
                s.st[me] = St::Blocked(addr);
                self.pick(&mut s, Some(me), false);
                self.wait(s, me);
                s = self.m.lock().unwrap();
            }
            if s.free {
                s.st[me] = St::Ready;
                let dead = s.deadlock || s.livelock;
                drop(s);
                if dead {
                    ::std::panic::resume_unwind(::std::boxed::Box::new("mc: stuck"));
                }
                ::std::thread::yield_now();
            }
        }

        fn unblock(&self, addr: usize, one: bool) {
            let mut s = self.m.lock().unwrap();
            for x in s.st.iter_mut() {
                if *x == St::Blocked(addr) {
                    *x = St::Ready;
                    if one {
                        break;
                    }
                }
            }
        }

        /// Run the bodies under the plan. Each body runs on its own thread.
        pub fn run(self: &Arc<Sched>, bodies: Vec<::std::boxed::Box<dyn FnOnce() + Send>>) -> Outcome {
            let hs: Vec<_> = bodies
                .into_iter()
                .enumerate()
                .map(|(i, b)| {
                    let s = self.clone();
                    ::std::thread::spawn(move || {
                        ME.with(|m| *m.borrow_mut() = Some((s.clone(), i)));
                        {
                            let mut g = s.m.lock().unwrap();
                            while g.cur != i && !g.free {
                                g = s.cv[i].wait(g).unwrap();
                            }
                        }
                        let r = ::std::panic::catch_unwind(::std::panic::AssertUnwindSafe(b));
                        let _ = r;
                        ME.with(|m| *m.borrow_mut() = None);
                        let mut g = s.m.lock().unwrap();
                        g.st[i] = St::Done;
                        if g.cur == i {
                            s.pick(&mut g, None, false);
                            if g.cur < s.cv.len() {
                                s.cv[g.cur].notify_all();
                            }
                        }
                        s.done.notify_all();
                    })
                })
                .collect();
            {
                let mut g = self.m.lock().unwrap();
                self.pick(&mut g, None, false);
                if g.cur < self.cv.len() {
                    self.cv[g.cur].notify_all();
                }
            }
            let mut stuck = false;
            {
                let mut g = self.m.lock().unwrap();
                let mut last = (usize::MAX, usize::MAX);
                let mut idle = 0;
                while g.st.iter().any(|x| *x != St::Done) {
                    let (n, t) = self.done.wait_timeout(g, ::std::time::Duration::from_millis(1000)).unwrap();
                    g = n;
                    if !t.timed_out() {
                        continue;
                    }
                    if last != (g.steps, g.cur) {
                        last = (g.steps, g.cur);
                        idle = 0;
                        continue;
                    }
                    idle += 1;
                    if idle < 3 {
                        continue;
                    }
                    // the running thread waits for something else; let another one run
                    let c = g.cur;
                    if !g.free && c < g.st.len() && g.st[c] == St::Ready && g.st.iter().enumerate().any(|(i, x)| i != c && *x == St::Ready) {
                        g.st[c] = St::Blocked(EXTERNAL);
                        self.pick(&mut g, None, false);
                        let k = g.cur;
                        self.cv[k].notify_all();
                        idle = 0;
                    } else if idle > 30 {
                        stuck = true;
                        break;
                    }
                }
            }
            if !stuck {
                for h in hs {
                    let _ = h.join();
                }
            }
            let g = self.m.lock().unwrap();
            Outcome {
                stuck, trace: g.trace.clone(), who: g.who.clone(), deadlock: g.deadlock, livelock: g.livelock, diverged: g.diverged }
        }
    }

    pub fn point() {
        with(|s, i| s.point(i, false));
    }
    pub fn pass() {
        with(|s, i| s.point(i, true));
    }
    /// False when this thread is not one of the scheduler's.
    pub fn block(addr: usize) -> bool {
        with(|s, i| s.block(i, addr)).is_some()
    }
    pub fn unblock(addr: usize) {
        with(|s, _| s.unblock(addr, false));
    }
    pub fn unblock_one(addr: usize) {
        with(|s, _| s.unblock(addr, true));
    }

    /// Who has used an object that need not be shared: it is a point of choice once more
    /// than one thread has.
    pub struct Owner(::std::sync::atomic::AtomicUsize);
    impl Owner {
        pub const fn new() -> Owner {
            Owner(::std::sync::atomic::AtomicUsize::new(0))
        }
        pub fn touch(&self) {
            use ::std::sync::atomic::Ordering::SeqCst;
            let m = me() + 1;
            match self.0.load(SeqCst) {
                0 => self.0.store(m, SeqCst),
                x if x == m => {}
                _ => {
                    self.0.store(usize::MAX, SeqCst);
                    point();
                }
            }
        }
    }
}

pub mod sync {
    pub use ::std::sync::*;
    use super::mc;
    use ::std::prelude::v1::*;
    use ::std::{fmt, ops};

    fn addr<T: ?Sized>(x: &T) -> usize {
        x as *const T as *const u8 as usize
    }

    pub struct Mutex<T: ?Sized> {
        inner: ::std::sync::Mutex<T>,
    }
    pub struct MutexGuard<'a, T: ?Sized + 'a> {
        g: Option<::std::sync::MutexGuard<'a, T>>,
        m: &'a Mutex<T>,
    }
    impl<T> Mutex<T> {
        pub const fn new(t: T) -> Self {
            Mutex { inner: ::std::sync::Mutex::new(t) }
        }
        pub fn into_inner(self) -> LockResult<T> {
            self.inner.into_inner()
        }
    }
    impl<T: ?Sized> Mutex<T> {
        fn guard<'a>(&'a self, g: ::std::sync::MutexGuard<'a, T>) -> MutexGuard<'a, T> {
            MutexGuard { g: Some(g), m: self }
        }
        pub fn lock(&self) -> LockResult<MutexGuard<'_, T>> {
            mc::point();
            let r = loop {
                match self.inner.try_lock() {
                    Ok(g) => break Ok(self.guard(g)),
                    Err(TryLockError::Poisoned(e)) => break Err(PoisonError::new(self.guard(e.into_inner()))),
                    Err(TryLockError::WouldBlock) => {
                        if !mc::block(addr(self)) {
                            break match self.inner.lock() {
                                Ok(g) => Ok(self.guard(g)),
                                Err(e) => Err(PoisonError::new(self.guard(e.into_inner()))),
                            };
                        }
                    }
                }
            };
            mc::point();
            r
        }
        pub fn try_lock(&self) -> TryLockResult<MutexGuard<'_, T>> {
            mc::point();
            let r = match self.inner.try_lock() {
                Ok(g) => Ok(self.guard(g)),
                Err(TryLockError::Poisoned(e)) => Err(TryLockError::Poisoned(PoisonError::new(self.guard(e.into_inner())))),
                Err(TryLockError::WouldBlock) => Err(TryLockError::WouldBlock),
            };
            mc::point();
            r
        }
        pub fn is_poisoned(&self) -> bool {
            self.inner.is_poisoned()
        }
        pub fn clear_poison(&self) {
            self.inner.clear_poison()
        }
        pub fn get_mut(&mut self) -> LockResult<&mut T> {
            self.inner.get_mut()
        }
    }
    impl<'a, T: ?Sized> Drop for MutexGuard<'a, T> {
        fn drop(&mut self) {
            if self.g.take().is_some() {
                mc::unblock(addr(self.m));
            }
        }
    }
    impl<'a, T: ?Sized> ops::Deref for MutexGuard<'a, T> {
        type Target = T;
        fn deref(&self) -> &T {
            self.g.as_ref().unwrap()
        }
    }
    impl<'a, T: ?Sized> ops::DerefMut for MutexGuard<'a, T> {
        fn deref_mut(&mut self) -> &mut T {
            self.g.as_mut().unwrap()
        }
    }
    impl<'a, T: ?Sized + fmt::Debug> fmt::Debug for MutexGuard<'a, T> {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
            (**self).fmt(f)
        }
    }
    impl<'a, T: ?Sized + fmt::Display> fmt::Display for MutexGuard<'a, T> {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
            (**self).fmt(f)
        }
    }
    impl<T: ?Sized + fmt::Debug> fmt::Debug for Mutex<T> {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
            self.inner.fmt(f)
        }
    }
    impl<T: Default> Default for Mutex<T> {
        fn default() -> Self {
            Mutex::new(T::default())
        }
    }
    impl<T> From<T> for Mutex<T> {
        fn from(t: T) -> Self {
            Mutex::new(t)
        }
    }

    #[derive(Default, Debug)]
    pub struct Condvar {
        inner: ::std::sync::Condvar,
    }
    impl Condvar {
        pub const fn new() -> Self {
            Condvar { inner: ::std::sync::Condvar::new() }
        }
        pub fn wait<'a, T>(&self, mut g: MutexGuard<'a, T>) -> LockResult<MutexGuard<'a, T>> {
            let m = g.m;
            if mc::me() == mc::UNCONTROLLED {
                let r = self.inner.wait(g.g.take().unwrap());
                return match r {
                    Ok(x) => Ok(m.guard(x)),
                    Err(e) => Err(PoisonError::new(m.guard(e.into_inner()))),
                };
            }
            drop(g);
            mc::block(addr(self));
            m.lock()
        }
        pub fn wait_while<'a, T, F: FnMut(&mut T) -> bool>(&self, mut g: MutexGuard<'a, T>, mut f: F) -> LockResult<MutexGuard<'a, T>> {
            while f(&mut *g) {
                g = self.wait(g)?;
            }
            Ok(g)
        }
        pub fn notify_one(&self) {
            mc::point();
            self.inner.notify_one();
            mc::unblock_one(addr(self));
        }
        pub fn notify_all(&self) {
            mc::point();
            self.inner.notify_all();
            mc::unblock(addr(self));
        }
    }

    pub struct RwLock<T: ?Sized> {
        inner: ::std::sync::RwLock<T>,
    }
    macro_rules! rw {
        ($G:ident, $lock:ident, $try:ident, $real:ident) => {
            pub struct $G<'a, T: ?Sized + 'a> {
                g: Option<::std::sync::$real<'a, T>>,
                a: usize,
            }
            impl<'a, T: ?Sized> Drop for $G<'a, T> {
                fn drop(&mut self) {
                    if self.g.take().is_some() {
                        mc::unblock(self.a);
                    }
                }
            }
            impl<'a, T: ?Sized> ops::Deref for $G<'a, T> {
                type Target = T;
                fn deref(&self) -> &T {
                    self.g.as_ref().unwrap()
                }
            }
            impl<'a, T: ?Sized + fmt::Debug> fmt::Debug for $G<'a, T> {
                fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                    (**self).fmt(f)
                }
            }
            impl<T: ?Sized> RwLock<T> {
                pub fn $lock(&self) -> LockResult<$G<'_, T>> {
                    mc::point();
                    let a = addr(self);
                    let r = loop {
                        match self.inner.$try() {
                            Ok(g) => break Ok($G { g: Some(g), a }),
                            Err(TryLockError::Poisoned(e)) => break Err(PoisonError::new($G { g: Some(e.into_inner()), a })),
                            Err(TryLockError::WouldBlock) => {
                                if !mc::block(a) {
                                    break match self.inner.$lock() {
                                        Ok(g) => Ok($G { g: Some(g), a }),
                                        Err(e) => Err(PoisonError::new($G { g: Some(e.into_inner()), a })),
                                    };
                                }
                            }
                        }
                    };
                    mc::point();
                    r
                }
                pub fn $try(&self) -> TryLockResult<$G<'_, T>> {
                    mc::point();
                    let a = addr(self);
                    let r = match self.inner.$try() {
                        Ok(g) => Ok($G { g: Some(g), a }),
                        Err(TryLockError::Poisoned(e)) => Err(TryLockError::Poisoned(PoisonError::new($G { g: Some(e.into_inner()), a }))),
                        Err(TryLockError::WouldBlock) => Err(TryLockError::WouldBlock),
                    };
                    mc::point();
                    r
                }
            }
        };
    }
    rw!(RwLockReadGuard, read, try_read, RwLockReadGuard);
    rw!(RwLockWriteGuard, write, try_write, RwLockWriteGuard);
    impl<'a, T: ?Sized> ops::DerefMut for RwLockWriteGuard<'a, T> {
        fn deref_mut(&mut self) -> &mut T {
            self.g.as_mut().unwrap()
        }
    }
    impl<T> RwLock<T> {
        pub const fn new(t: T) -> Self {
            RwLock { inner: ::std::sync::RwLock::new(t) }
        }
        pub fn into_inner(self) -> LockResult<T> {
            self.inner.into_inner()
        }
    }
    impl<T: ?Sized> RwLock<T> {
        pub fn is_poisoned(&self) -> bool {
            self.inner.is_poisoned()
        }
        pub fn clear_poison(&self) {
            self.inner.clear_poison()
        }
        pub fn get_mut(&mut self) -> LockResult<&mut T> {
            self.inner.get_mut()
        }
    }
    impl<T: ?Sized + fmt::Debug> fmt::Debug for RwLock<T> {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
            self.inner.fmt(f)
        }
    }
    impl<T: Default> Default for RwLock<T> {
        fn default() -> Self {
            RwLock::new(T::default())
        }
    }
    impl<T> From<T> for RwLock<T> {
        fn from(t: T) -> Self {
            RwLock::new(t)
        }
    }

    pub struct OnceLock<T> {
        v: ::std::sync::OnceLock<T>,
        m: Mutex<()>,
    }
    impl<T> OnceLock<T> {
        pub const fn new() -> Self {
            OnceLock { v: ::std::sync::OnceLock::new(), m: Mutex::new(()) }
        }
        pub fn get(&self) -> Option<&T> {
            mc::point();
            self.v.get()
        }
        pub fn get_mut(&mut self) -> Option<&mut T> {
            self.v.get_mut()
        }
        pub fn set(&self, t: T) -> Result<(), T> {
            let _g = self.m.lock().unwrap_or_else(|e| e.into_inner());
            self.v.set(t)
        }
        pub fn get_or_init<F: FnOnce() -> T>(&self, f: F) -> &T {
            if let Some(x) = self.get() {
                return x;
            }
            let _g = self.m.lock().unwrap_or_else(|e| e.into_inner());
            if self.v.get().is_none() {
                let x = f();
                let _ = self.v.set(x);
            }
            self.v.get().unwrap()
        }
        pub fn into_inner(self) -> Option<T> {
            self.v.into_inner()
        }
        pub fn take(&mut self) -> Option<T> {
            self.v.take()
        }
    }
    impl<T> Default for OnceLock<T> {
        fn default() -> Self {
            Self::new()
        }
    }
    impl<T: fmt::Debug> fmt::Debug for OnceLock<T> {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
            self.v.fmt(f)
        }
    }
    impl<T: Clone> Clone for OnceLock<T> {
        fn clone(&self) -> Self {
            let r = Self::new();
            if let Some(x) = self.v.get() {
                let _ = r.v.set(x.clone());
            }
            r
        }
    }

    pub struct LazyLock<T, F = fn() -> T> {
        v: OnceLock<T>,
        f: ::std::sync::Mutex<Option<F>>,
    }
    impl<T, F: FnOnce() -> T> LazyLock<T, F> {
        pub const fn new(f: F) -> Self {
            LazyLock { v: OnceLock::new(), f: ::std::sync::Mutex::new(Some(f)) }
        }
        pub fn force(this: &LazyLock<T, F>) -> &T {
            this.v.get_or_init(|| {
                let f = this.f.lock().unwrap().take().expect("LazyLock instance has previously been poisoned");
                f()
            })
        }
    }
    impl<T, F: FnOnce() -> T> ops::Deref for LazyLock<T, F> {
        type Target = T;
        fn deref(&self) -> &T {
            LazyLock::force(self)
        }
    }

    pub struct Once {
        o: OnceLock<()>,
    }
    impl Once {
        pub const fn new() -> Self {
            Once { o: OnceLock::new() }
        }
        pub fn call_once<F: FnOnce()>(&self, f: F) {
            self.o.get_or_init(f);
        }
        pub fn is_completed(&self) -> bool {
            self.o.get().is_some()
        }
    }

    pub mod atomic {
        pub use ::std::sync::atomic::*;
        use super::super::mc;
        use ::std::prelude::v1::*;
        macro_rules! atomic {
            ($A:ident, $t:ty, [$($f:ident)*]) => {
                #[repr(transparent)]
                #[derive(Default, Debug)]
                pub struct $A(::std::sync::atomic::$A);
                impl $A {
                    pub const fn new(v: $t) -> Self {
                        $A(::std::sync::atomic::$A::new(v))
                    }
                    pub fn load(&self, o: Ordering) -> $t {
                        mc::point();
                        self.0.load(o)
                    }
                    pub fn store(&self, v: $t, o: Ordering) {
                        mc::point();
                        self.0.store(v, o)
                    }
                    pub fn swap(&self, v: $t, o: Ordering) -> $t {
                        mc::point();
                        self.0.swap(v, o)
                    }
                    pub fn compare_exchange(&self, a: $t, b: $t, o: Ordering, p: Ordering) -> Result<$t, $t> {
                        mc::point();
                        self.0.compare_exchange(a, b, o, p)
                    }
                    pub fn compare_exchange_weak(&self, a: $t, b: $t, o: Ordering, p: Ordering) -> Result<$t, $t> {
                        self.compare_exchange(a, b, o, p)
                    }
                    pub fn fetch_update<F: FnMut($t) -> Option<$t>>(&self, o: Ordering, p: Ordering, f: F) -> Result<$t, $t> {
                        mc::point();
                        self.0.fetch_update(o, p, f)
                    }
                    $(pub fn $f(&self, v: $t, o: Ordering) -> $t {
                        mc::point();
                        self.0.$f(v, o)
                    })*
                    pub fn into_inner(self) -> $t {
                        self.0.into_inner()
                    }
                    pub fn get_mut(&mut self) -> &mut $t {
                        self.0.get_mut()
                    }
                }
                impl From<$t> for $A {
                    fn from(v: $t) -> Self {
                        Self::new(v)
                    }
                }
            };
        }
        atomic!(AtomicUsize, usize, [fetch_add fetch_sub fetch_and fetch_or fetch_xor fetch_max fetch_min]);
        atomic!(AtomicIsize, isize, [fetch_add fetch_sub fetch_and fetch_or fetch_xor fetch_max fetch_min]);
        atomic!(AtomicU64, u64, [fetch_add fetch_sub fetch_and fetch_or fetch_xor fetch_max fetch_min]);
        atomic!(AtomicI64, i64, [fetch_add fetch_sub fetch_and fetch_or fetch_xor fetch_max fetch_min]);
        atomic!(AtomicU32, u32, [fetch_add fetch_sub fetch_and fetch_or fetch_xor fetch_max fetch_min]);
        atomic!(AtomicI32, i32, [fetch_add fetch_sub fetch_and fetch_or fetch_xor fetch_max fetch_min]);
        atomic!(AtomicU8, u8, [fetch_add fetch_sub fetch_and fetch_or fetch_xor fetch_max fetch_min]);
        atomic!(AtomicBool, bool, [fetch_and fetch_or fetch_xor fetch_nand]);

        pub fn fence(o: Ordering) {
            mc::point();
            ::std::sync::atomic::fence(o)
        }
        pub fn spin_loop_hint() {
            mc::pass()
        }
    }
}

pub mod thread {
    pub use ::std::thread::*;
    pub fn yield_now() {
        super::mc::pass();
        ::std::thread::yield_now();
    }
    pub fn sleep(d: ::std::time::Duration) {
        super::mc::pass();
        let _ = d;
    }
}

pub mod hint {
    pub use ::std::hint::*;
    pub fn spin_loop() {
        super::mc::pass()
    }
}

pub mod cell {
    pub use ::std::cell::*;
    use super::mc::Owner;
    use ::std::prelude::v1::*;
    use ::std::{fmt, ops};

    pub struct RefCell<T: ?Sized> {
        o: Owner,
        inner: ::std::cell::RefCell<T>,
    }
    impl<T> RefCell<T> {
        pub const fn new(t: T) -> Self {
            RefCell { o: Owner::new(), inner: ::std::cell::RefCell::new(t) }
        }
        pub fn into_inner(self) -> T {
            self.inner.into_inner()
        }
    }
    impl<T: ?Sized> RefCell<T> {
        // the point after is where others see the borrow
        #[track_caller]
        pub fn borrow(&self) -> Ref<'_, T> {
            self.o.touch();
            let r = self.inner.borrow();
            self.o.touch();
            r
        }
        #[track_caller]
        pub fn borrow_mut(&self) -> RefMut<'_, T> {
            self.o.touch();
            let r = self.inner.borrow_mut();
            self.o.touch();
            r
        }
        pub fn try_borrow(&self) -> Result<Ref<'_, T>, BorrowError> {
            self.o.touch();
            let r = self.inner.try_borrow();
            self.o.touch();
            r
        }
        pub fn try_borrow_mut(&self) -> Result<RefMut<'_, T>, BorrowMutError> {
            self.o.touch();
            let r = self.inner.try_borrow_mut();
            self.o.touch();
            r
        }
    }
    impl<T: ?Sized> ops::Deref for RefCell<T> {
        type Target = ::std::cell::RefCell<T>;
        fn deref(&self) -> &Self::Target {
            self.o.touch();
            &self.inner
        }
    }
    impl<T: ?Sized> ops::DerefMut for RefCell<T> {
        fn deref_mut(&mut self) -> &mut Self::Target {
            &mut self.inner
        }
    }
    impl<T: Default> Default for RefCell<T> {
        fn default() -> Self {
            Self::new(T::default())
        }
    }
    impl<T: Clone> Clone for RefCell<T> {
        fn clone(&self) -> Self {
            Self::new(self.borrow().clone())
        }
    }
    impl<T: ?Sized + fmt::Debug> fmt::Debug for RefCell<T> {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
            self.inner.fmt(f)
        }
    }
    impl<T: ?Sized + PartialEq> PartialEq for RefCell<T> {
        fn eq(&self, o: &Self) -> bool {
            self.inner == o.inner
        }
    }
    impl<T> From<T> for RefCell<T> {
        fn from(t: T) -> Self {
            Self::new(t)
        }
    }

    pub struct Cell<T: ?Sized> {
        o: Owner,
        inner: ::std::cell::Cell<T>,
    }
    impl<T> Cell<T> {
        pub const fn new(t: T) -> Self {
            Cell { o: Owner::new(), inner: ::std::cell::Cell::new(t) }
        }
        pub fn set(&self, t: T) {
            self.o.touch();
            self.inner.set(t)
        }
        pub fn replace(&self, t: T) -> T {
            self.o.touch();
            self.inner.replace(t)
        }
        pub fn take(&self) -> T
        where
            T: Default,
        {
            self.o.touch();
            self.inner.take()
        }
        pub fn get(&self) -> T
        where
            T: Copy,
        {
            self.o.touch();
            self.inner.get()
        }
        pub fn into_inner(self) -> T {
            self.inner.into_inner()
        }
    }
    impl<T: ?Sized> ops::Deref for Cell<T> {
        type Target = ::std::cell::Cell<T>;
        fn deref(&self) -> &Self::Target {
            &self.inner
        }
    }
    impl<T: ?Sized> ops::DerefMut for Cell<T> {
        fn deref_mut(&mut self) -> &mut Self::Target {
            &mut self.inner
        }
    }
    impl<T: Default> Default for Cell<T> {
        fn default() -> Self {
            Self::new(T::default())
        }
    }
    impl<T: Copy> Clone for Cell<T> {
        fn clone(&self) -> Self {
            Self::new(self.get())
        }
    }
    impl<T: Copy + fmt::Debug> fmt::Debug for Cell<T> {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
            self.inner.fmt(f)
        }
    }
    impl<T: Copy + PartialEq> PartialEq for Cell<T> {
        fn eq(&self, o: &Self) -> bool {
            self.get() == o.get()
        }
    }

    pub struct UnsafeCell<T: ?Sized> {
        o: Owner,
        inner: ::std::cell::UnsafeCell<T>,
    }
    impl<T> UnsafeCell<T> {
        pub const fn new(t: T) -> Self {
            UnsafeCell { o: Owner::new(), inner: ::std::cell::UnsafeCell::new(t) }
        }
        pub fn into_inner(self) -> T {
            self.inner.into_inner()
        }
    }
    impl<T: ?Sized> UnsafeCell<T> {
        pub fn get(&self) -> *mut T {
            self.o.touch();
            self.inner.get()
        }
        pub fn get_mut(&mut self) -> &mut T {
            self.inner.get_mut()
        }
    }
    impl<T: Default> Default for UnsafeCell<T> {
        fn default() -> Self {
            Self::new(T::default())
        }
    }
}
