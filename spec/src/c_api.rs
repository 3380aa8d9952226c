//! the C interface: everything that can go wrong is the error value, and a failed call leaves the context as it was
use crate::boost::Booster; use crate::config::Config; use crate::data::Data; use crate::metric::*; use crate::objective::*;
use crate::tree::tree::AdditiveTree;
use std::panic::catch_unwind;
use std::alloc::{alloc, dealloc, Layout};

pub struct Context { config: Config, nfeatures: usize, data: Option<Data>, model: Option<AdditiveTree> }
type Ptr = *mut std::ffi::c_void;

unsafe fn ctx<'a>(p: Ptr) -> &'a mut Context { if p.is_null() { panic!() } &mut *(p as *mut Context) }
fn outcome(r: std::thread::Result<()>) -> i32 { match r { Ok(()) => 0, Err(_) => -1 } }
fn need(x: bool) { if !x { panic!() } }

pub fn nbytes() -> i32 { 4 }
pub fn create(n: i32) -> Ptr {
    match catch_unwind(|| unsafe {
        need(n > 0);
        let p = alloc(Layout::new::<Context>()) as Ptr;
        need(!p.is_null());
        std::ptr::write(p as *mut Context, Context { config: Config::new(), nfeatures: n as usize, data: None, model: None });
        p
    }) { Ok(p) => p, Err(_) => std::ptr::null_mut() }
}
pub fn release(p: Ptr) -> i32 {
    outcome(catch_unwind(|| unsafe {
        need(!p.is_null());
        std::ptr::drop_in_place(p as *mut Context);
        dealloc(p as *mut u8, Layout::new::<Context>());
    }))
}
pub fn refresh(p: Ptr, n: i32) -> i32 {
    outcome(catch_unwind(|| unsafe {
        need(n > 0);
        let c = ctx(p);
        c.data = Some(Data::empty(&c.config, c.nfeatures, n as usize));
    }))
}
pub fn column(p: Ptr, feature: i32, values: *const f32, categorical: i32) -> i32 {
    outcome(catch_unwind(|| unsafe {
        let c = ctx(p);
        need(feature >= 0 && feature as usize <= c.nfeatures);
        match &mut c.data {
            None => panic!(),
            Some(d) => {
                let v = std::slice::from_raw_parts(values, d.nexamples);
                if d.set_feature_data(feature as usize, v, categorical != 0).is_err() { panic!() }
            }
        }
    }))
}
pub fn option(p: Ptr, name: *const std::ffi::c_char, value: *const std::ffi::c_char) -> i32 {
    outcome(catch_unwind(|| unsafe {
        let c = ctx(p);
        need(c.data.is_none());
        let name = match std::ffi::CStr::from_ptr(name).to_str() { Ok(x) => x, Err(_) => panic!() };
        let value = match std::ffi::CStr::from_ptr(value).to_str() { Ok(x) => x, Err(_) => panic!() };
        if c.config.parse_record(name, value).is_err() { panic!() }
    }))
}
pub fn train(p: Ptr) -> i32 {
    outcome(catch_unwind(|| {
        let c = unsafe { ctx(p) };
        let d = match &mut c.data { Some(d) => d, None => panic!() };
        let mut objective = match objective_from_name(&c.config.objective) { Some(o) => o, None => panic!() };
        let metrics = match metrics_from_names(&c.config.metrics) { Some(m) => m, None => panic!() };
        c.model = Some(Booster::new(&c.config, d, objective.as_mut(), &metrics).train());
    }))
}
pub fn predict(p: Ptr, out: *mut f32) -> i32 {
    outcome(catch_unwind(|| unsafe {
        let c = ctx(p);
        match (&c.data, &c.model) {
            (Some(d), Some(m)) => { m.predict_buf(d, std::slice::from_raw_parts_mut(out, d.nexamples)); }
            _ => panic!(),
        }
    }))
}

// the same with the context in a box
pub fn create_boxed(n: i32) -> Ptr {
    match catch_unwind(|| {
        need(n > 0);
        Box::into_raw(Box::new(Context { config: Config::new(), nfeatures: n as usize, data: None, model: None })) as Ptr
    }) { Ok(p) => p, Err(_) => std::ptr::null_mut() }
}
pub fn release_boxed(p: Ptr) -> i32 {
    outcome(catch_unwind(|| unsafe {
        need(!p.is_null());
        drop(Box::from_raw(p as *mut Context));
    }))
}
