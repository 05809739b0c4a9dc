//! Stand-in for `std` in the symbolic build of MapEditr: everything is the real `std` except hash maps
//! (deterministic hash), threads and channels (coroutines of the symbolic executor) and the clock.
pub use ::std::*;

extern "C" {
    fn sym_catch(f: extern "C" fn(*mut u8), data: *mut u8) -> u32;
    fn sym_spawn(f: extern "C" fn(*mut u8), data: *mut u8) -> u64;
    fn sym_yield();
    fn sym_alive(tid: u64) -> u64;
}

pub mod collections {
    pub use ::std::collections::*;
    use ::std::borrow::Borrow;
    use ::std::hash::{BuildHasher, Hash, Hasher};
    use ::std::ops::{Deref, DerefMut, Index};

    #[derive(Clone, Copy, Default, Debug)]
    pub struct FixedHasher;
    impl Hasher for FixedHasher {
        fn finish(&self) -> u64 { 0 }
        fn write(&mut self, _: &[u8]) {}
        fn write_u8(&mut self, _: u8) {}
        fn write_u64(&mut self, _: u64) {}
        fn write_usize(&mut self, _: usize) {}
    }
    impl BuildHasher for FixedHasher {
        type Hasher = FixedHasher;
        fn build_hasher(&self) -> FixedHasher { FixedHasher }
    }

    macro_rules! common { ($n:ident, $($p:ident),+ => $inner:ty) => {
        impl<$($p),+> Deref for $n<$($p),+> { type Target = $inner; fn deref(&self) -> &$inner { &self.0 } }
        impl<$($p),+> DerefMut for $n<$($p),+> { fn deref_mut(&mut self) -> &mut $inner { &mut self.0 } }
        impl<$($p),+> Default for $n<$($p),+> { fn default() -> Self { Self::new() } }
        impl<$($p),+> $n<$($p),+> {
            pub fn new() -> Self { Self(<$inner>::with_hasher(FixedHasher)) }
            pub fn with_capacity(c: usize) -> Self { Self(<$inner>::with_capacity_and_hasher(c.min(64), FixedHasher)) }
        }
    } }

    type StdMap<K, V> = ::std::collections::HashMap<K, V, FixedHasher>;
    #[derive(Clone, Debug)]
    pub struct HashMap<K, V>(StdMap<K, V>);
    common!(HashMap, K, V => StdMap<K, V>);
    impl<K: Eq + Hash, V, const N: usize> From<[(K, V); N]> for HashMap<K, V> { fn from(a: [(K, V); N]) -> Self { ::std::iter::IntoIterator::into_iter(a).collect() } }
    impl<K, V> HashMap<K, V> {
        pub fn into_keys(self) -> ::std::collections::hash_map::IntoKeys<K, V> { self.0.into_keys() }
        pub fn into_values(self) -> ::std::collections::hash_map::IntoValues<K, V> { self.0.into_values() }
    }
    impl<'a, K: Eq + Hash + Copy, V: Copy> Extend<(&'a K, &'a V)> for HashMap<K, V> { fn extend<I: IntoIterator<Item = (&'a K, &'a V)>>(&mut self, i: I) { for (k, v) in i { self.0.insert(*k, *v); } } }
    impl<K: Eq + Hash, V: PartialEq> PartialEq for HashMap<K, V> { fn eq(&self, o: &Self) -> bool { self.0 == o.0 } }
    impl<K: Eq + Hash, V: Eq> Eq for HashMap<K, V> {}
    impl<K: Eq + Hash + Borrow<Q>, Q: ?Sized + Eq + Hash, V> Index<&Q> for HashMap<K, V> { type Output = V; fn index(&self, k: &Q) -> &V { &self.0[k] } }
    impl<K: Eq + Hash, V> ::std::iter::FromIterator<(K, V)> for HashMap<K, V> { fn from_iter<I: IntoIterator<Item = (K, V)>>(i: I) -> Self { let mut m = Self::new(); for (k, v) in i { m.0.insert(k, v); } m } }
    impl<K: Eq + Hash, V> Extend<(K, V)> for HashMap<K, V> { fn extend<I: IntoIterator<Item = (K, V)>>(&mut self, i: I) { for (k, v) in i { self.0.insert(k, v); } } }
    impl<'a, K, V> IntoIterator for &'a HashMap<K, V> { type Item = (&'a K, &'a V); type IntoIter = ::std::collections::hash_map::Iter<'a, K, V>; fn into_iter(self) -> Self::IntoIter { self.0.iter() } }
    impl<'a, K, V> IntoIterator for &'a mut HashMap<K, V> { type Item = (&'a K, &'a mut V); type IntoIter = ::std::collections::hash_map::IterMut<'a, K, V>; fn into_iter(self) -> Self::IntoIter { self.0.iter_mut() } }
    impl<K, V> IntoIterator for HashMap<K, V> { type Item = (K, V); type IntoIter = ::std::collections::hash_map::IntoIter<K, V>; fn into_iter(self) -> Self::IntoIter { self.0.into_iter() } }

    type StdSet<K> = ::std::collections::HashSet<K, FixedHasher>;
    #[derive(Clone, Debug)]
    pub struct HashSet<K>(StdSet<K>);
    common!(HashSet, K => StdSet<K>);
    impl<K: Eq + Hash, const N: usize> From<[K; N]> for HashSet<K> { fn from(a: [K; N]) -> Self { ::std::iter::IntoIterator::into_iter(a).collect() } }
    impl<'a, K: Eq + Hash + Copy> Extend<&'a K> for HashSet<K> { fn extend<I: IntoIterator<Item = &'a K>>(&mut self, i: I) { for k in i { self.0.insert(*k); } } }
    impl<K: Eq + Hash> PartialEq for HashSet<K> { fn eq(&self, o: &Self) -> bool { self.0 == o.0 } }
    impl<K: Eq + Hash> Eq for HashSet<K> {}
    impl<K: Eq + Hash> ::std::iter::FromIterator<K> for HashSet<K> { fn from_iter<I: IntoIterator<Item = K>>(i: I) -> Self { let mut m = Self::new(); for k in i { m.0.insert(k); } m } }
    impl<K: Eq + Hash> Extend<K> for HashSet<K> { fn extend<I: IntoIterator<Item = K>>(&mut self, i: I) { for k in i { self.0.insert(k); } } }
    impl<'a, K> IntoIterator for &'a HashSet<K> { type Item = &'a K; type IntoIter = ::std::collections::hash_set::Iter<'a, K>; fn into_iter(self) -> Self::IntoIter { self.0.iter() } }
    impl<K> IntoIterator for HashSet<K> { type Item = K; type IntoIter = ::std::collections::hash_set::IntoIter<K>; fn into_iter(self) -> Self::IntoIter { self.0.into_iter() } }
}

pub mod thread {
    pub use ::std::thread::*;
    use ::std::cell::UnsafeCell;
    use ::std::sync::Arc;

    struct Slot<T>(UnsafeCell<Option<T>>);
    unsafe impl<T> Sync for Slot<T> {}
    unsafe impl<T> Send for Slot<T> {}

    pub struct JoinHandle<T> { tid: u64, slot: Arc<Slot<T>> }
    impl<T> JoinHandle<T> {
        pub fn join(self) -> ::std::thread::Result<T> {
            while !self.is_finished() { unsafe { super::sym_yield() } }
            match unsafe { (*self.slot.0.get()).take() } {
                Some(v) => Ok(v),
                None => Err(Box::new("thread panicked")),
            }
        }
        pub fn is_finished(&self) -> bool { unsafe { super::sym_alive(self.tid) == 0 } }
    }

    struct Start<T, F: FnOnce() -> T> { f: Option<F>, slot: Arc<Slot<T>> }
    extern "C" fn body<T, F: FnOnce() -> T>(p: *mut u8) {
        unsafe {
            let s = &mut *(p as *mut Start<T, F>);
            let v = (s.f.take().unwrap())();
            *s.slot.0.get() = Some(v);
        }
    }
    extern "C" fn entry<T, F: FnOnce() -> T>(p: *mut u8) { unsafe { super::sym_catch(body::<T, F>, p); } }

    pub fn spawn<F, T>(f: F) -> JoinHandle<T> where F: FnOnce() -> T + Send + 'static, T: Send + 'static {
        let slot = Arc::new(Slot(UnsafeCell::new(None)));
        let st = Box::into_raw(Box::new(Start { f: Some(f), slot: slot.clone() }));
        let tid = unsafe { super::sym_spawn(entry::<T, F>, st as *mut u8) };
        JoinHandle { tid, slot }
    }

    pub struct Builder(());
    impl Builder {
        pub fn new() -> Self { Builder(()) }
        pub fn name(self, _: String) -> Self { self }
        pub fn stack_size(self, _: usize) -> Self { self }
        pub fn spawn<F, T>(self, f: F) -> ::std::io::Result<JoinHandle<T>> where F: FnOnce() -> T + Send + 'static, T: Send + 'static { Ok(spawn(f)) }
    }
    pub fn sleep(_: ::std::time::Duration) { unsafe { super::sym_yield() } }
    pub fn yield_now() { unsafe { super::sym_yield() } }
}

pub mod sync {
    pub use ::std::sync::*;
    pub mod mpsc {
        pub use ::std::sync::mpsc::{RecvError, RecvTimeoutError, SendError, TryRecvError, TrySendError};
        use ::std::cell::UnsafeCell;
        use ::std::collections::VecDeque;
        use ::std::sync::Arc;
        use ::std::time::Duration;

        struct Chan<T> { q: VecDeque<T>, senders: usize, receiver: bool }
        struct Shared<T>(UnsafeCell<Chan<T>>);
        unsafe impl<T: Send> Sync for Shared<T> {}
        unsafe impl<T: Send> Send for Shared<T> {}
        impl<T> Shared<T> { fn get(&self) -> &mut Chan<T> { unsafe { &mut *self.0.get() } } }

        pub struct Sender<T>(Arc<Shared<T>>);
        pub struct Receiver<T>(Arc<Shared<T>>);
        pub type SyncSender<T> = Sender<T>;

        pub fn channel<T>() -> (Sender<T>, Receiver<T>) {
            let c = Arc::new(Shared(UnsafeCell::new(Chan { q: VecDeque::new(), senders: 1, receiver: true })));
            (Sender(c.clone()), Receiver(c))
        }
        pub fn sync_channel<T>(_: usize) -> (SyncSender<T>, Receiver<T>) { channel() }
        impl<T> Clone for Sender<T> { fn clone(&self) -> Self { self.0.get().senders += 1; Sender(self.0.clone()) } }
        impl<T> Drop for Sender<T> { fn drop(&mut self) { self.0.get().senders -= 1; } }
        impl<T> Drop for Receiver<T> { fn drop(&mut self) { self.0.get().receiver = false; } }
        impl<T> Sender<T> {
            pub fn send(&self, t: T) -> Result<(), SendError<T>> {
                let c = self.0.get();
                if !c.receiver { return Err(SendError(t)) }
                c.q.push_back(t);
                Ok(())
            }
        }
        impl<T> Receiver<T> {
            pub fn try_recv(&self) -> Result<T, TryRecvError> {
                let c = self.0.get();
                match c.q.pop_front() {
                    Some(t) => Ok(t),
                    // A sender held by a thread that has panicked is never dropped here, so look at the threads as well.
                    None => if c.senders == 0 || unsafe { crate::sym_alive(u64::MAX) } == 0 { Err(TryRecvError::Disconnected) } else { Err(TryRecvError::Empty) }
                }
            }
            pub fn recv(&self) -> Result<T, RecvError> {
                loop {
                    match self.try_recv() {
                        Ok(t) => return Ok(t),
                        Err(TryRecvError::Disconnected) => return Err(RecvError),
                        Err(TryRecvError::Empty) => unsafe { crate::sym_yield() },
                    }
                }
            }
            /// Waits as long as it takes: a timeout is never reported.
            pub fn recv_timeout(&self, _: Duration) -> Result<T, RecvTimeoutError> { self.recv().map_err(|_| RecvTimeoutError::Disconnected) }
            pub fn iter(&self) -> Iter<'_, T> { Iter(self) }
            pub fn try_iter(&self) -> TryIter<'_, T> { TryIter(self) }
        }
        pub struct Iter<'a, T>(&'a Receiver<T>);
        impl<'a, T> Iterator for Iter<'a, T> { type Item = T; fn next(&mut self) -> Option<T> { self.0.recv().ok() } }
        pub struct TryIter<'a, T>(&'a Receiver<T>);
        impl<'a, T> Iterator for TryIter<'a, T> { type Item = T; fn next(&mut self) -> Option<T> { self.0.try_recv().ok() } }
    }
}

pub mod time {
    pub use ::std::time::*;
    use ::std::ops::{Add, AddAssign, Sub};
    use ::std::sync::atomic::{AtomicU64, Ordering};
    static CLOCK: AtomicU64 = AtomicU64::new(1000);
    /// A clock that moves one millisecond each time it is read.
    #[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
    pub struct Instant(Duration);
    impl Instant {
        pub fn now() -> Self { Instant(Duration::from_millis(CLOCK.fetch_add(1, Ordering::Relaxed))) }
        pub fn duration_since(&self, o: Instant) -> Duration { self.0.checked_sub(o.0).unwrap_or(Duration::from_secs(0)) }
        pub fn saturating_duration_since(&self, o: Instant) -> Duration { self.duration_since(o) }
        pub fn elapsed(&self) -> Duration { Instant::now().duration_since(*self) }
        pub fn checked_duration_since(&self, o: Instant) -> Option<Duration> { self.0.checked_sub(o.0) }
        pub fn checked_sub(&self, d: Duration) -> Option<Instant> { self.0.checked_sub(d).map(Instant) }
        pub fn checked_add(&self, d: Duration) -> Option<Instant> { self.0.checked_add(d).map(Instant) }
    }
    impl Add<Duration> for Instant { type Output = Instant; fn add(self, d: Duration) -> Instant { Instant(self.0 + d) } }
    impl AddAssign<Duration> for Instant { fn add_assign(&mut self, d: Duration) { self.0 += d } }
    impl ::std::ops::SubAssign<Duration> for Instant { fn sub_assign(&mut self, d: Duration) { self.0 -= d } }
    impl Sub<Duration> for Instant { type Output = Instant; fn sub(self, d: Duration) -> Instant { Instant(self.0 - d) } }
    impl Sub<Instant> for Instant { type Output = Duration; fn sub(self, o: Instant) -> Duration { self.duration_since(o) } }
}
