use std::alloc::{GlobalAlloc,Layout,System};
use std::sync::atomic::*;
use ndarray_slice::Slice1Ext;
use ndarray_slice::ndarray::Array1;
struct A;
static FAIL: AtomicBool=AtomicBool::new(false);
static PTRS:[AtomicUsize;4096]=[const{AtomicUsize::new(0)};4096];
static SZ:[AtomicUsize;4096]=[const{AtomicUsize::new(0)};4096];
static BAD: AtomicUsize=AtomicUsize::new(0);
unsafe impl GlobalAlloc for A{
 unsafe fn alloc(&self,l:Layout)->*mut u8{ if FAIL.load(Ordering::SeqCst)&&l.size()==512&&l.align()==8 {FAIL.store(false,Ordering::SeqCst);return std::ptr::null_mut()} let p=System.alloc(l); 
  for i in 0..4096{ if PTRS[i].compare_exchange(0,p as usize,Ordering::SeqCst,Ordering::SeqCst).is_ok(){SZ[i].store(l.size(),Ordering::SeqCst);break}} p}
 unsafe fn dealloc(&self,p:*mut u8,l:Layout){ for i in 0..4096{ if PTRS[i].load(Ordering::SeqCst)==p as usize{ if SZ[i].load(Ordering::SeqCst)!=l.size(){BAD.fetch_add(1,Ordering::SeqCst);} PTRS[i].store(0,Ordering::SeqCst);break}} System.dealloc(p,l)}
}
#[global_allocator] static G:A=A;
fn main(){
 // descending run lengths: r_i > r_{i+1}+r_{i+2}
 let mut runs=vec![30usize,40]; while runs.len()<24{let n=runs.len();runs.push(runs[n-1]+runs[n-2]+1);} runs.reverse();
 let mut v=vec![]; for r in &runs{ for i in 0..*r{v.push(i as u64)} }
 let mut a=Array1::from(v);
 FAIL.store(true,Ordering::SeqCst);
 let r=std::panic::catch_unwind(std::panic::AssertUnwindSafe(||a.sort()));
 println!("panicked={} mismatched releases={}",r.is_err(),BAD.load(Ordering::SeqCst));
 std::process::exit((BAD.load(Ordering::SeqCst)>0) as i32)
}
