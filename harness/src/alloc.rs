//! An allocator that knows on whose behalf each allocation was made, to find
//! out whether all of it is freed again
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::sync::atomic::{AtomicI32, AtomicUsize, Ordering::SeqCst};

const OWNERS: usize = 1 << 20;

thread_local! { static OWNER: Cell<usize> = const { Cell::new(0) }; }
// What is taken from and given back to the heap by this thread, while it is watched
thread_local! { static WATCHED: Cell<Option<HeapUse>> = const { Cell::new(None) }; }
static LIVE: [AtomicI32; OWNERS] = [const { AtomicI32::new(0) }; OWNERS];
static NEXT: AtomicUsize = AtomicUsize::new(1);

pub struct Tagging;

fn header(layout: &Layout) -> usize {
    layout.align().max(16)
}

unsafe impl GlobalAlloc for Tagging {
    unsafe fn alloc(&self, layout: Layout) -> *mut u8 {
        let owner = OWNER.try_with(|o| o.get()).unwrap_or(0);
        let _ = WATCHED.try_with(|w| if let Some(u) = w.get() { w.set(Some(HeapUse { taken: u.taken + 1, largest: u.largest.max(layout.size()), ..u })) });
        let header = header(&layout);
        let start = System.alloc(Layout::from_size_align_unchecked(layout.size() + header, header));
        if start.is_null() {
            return start;
        }
        if owner != 0 {
            LIVE[owner].fetch_add(1, SeqCst);
        }
        let at = start.add(header);
        (at as *mut usize).sub(1).write(owner);
        at
    }

    unsafe fn dealloc(&self, at: *mut u8, layout: Layout) {
        let owner = (at as *mut usize).sub(1).read();
        let _ = WATCHED.try_with(|w| if let Some(u) = w.get() { w.set(Some(HeapUse { given: u.given + 1, ..u })) });
        if owner != 0 {
            LIVE[owner].fetch_sub(1, SeqCst);
        }
        let header = header(&layout);
        System.dealloc(at.sub(header), Layout::from_size_align_unchecked(layout.size() + header, header));
    }
}

/// Whatever is allocated in `f` belongs to a new owner
pub fn owned<T>(f: impl FnOnce() -> T) -> (usize, T) {
    let owner = NEXT.fetch_add(1, SeqCst);
    assert!(owner < OWNERS, "harness: too many owners");
    let before = OWNER.with(|o| o.replace(owner));
    let result = f();
    OWNER.with(|o| o.set(before));
    (owner, result)
}

/// How much of what `owned` allocated is still there
pub fn live(owner: usize) -> i32 {
    LIVE[owner].load(SeqCst)
}

/// How often memory is taken from the heap and given back, and how many bytes at most at once
#[derive(Clone, Copy, Default, Debug)]
pub struct HeapUse {
    pub taken: usize,
    pub given: usize,
    pub largest: usize,
}

/// The use that `f` makes of the heap in this thread
pub fn heap_use(f: impl FnOnce()) -> HeapUse {
    WATCHED.with(|w| w.set(Some(HeapUse::default())));
    f();
    WATCHED.with(|w| w.replace(None)).unwrap()
}
