//! A stand-in for the part of neon 0.3 that ratel's node binding uses. There is no JavaScript
//! engine behind it: arguments are Rust values, and errors that are thrown are recorded.
use std::cell::RefCell;
use std::ops::Deref;

/// The argument of a call.
#[derive(Clone, Debug)]
pub enum Arg {
    Undefined,
    Number(f64),
    String(String),
    Boolean(bool),
}

pub struct JsString(String);
impl JsString {
    pub fn value(&self) -> String {
        self.0.clone()
    }
    pub fn size(&self) -> isize {
        self.0.len() as isize
    }
}
pub struct JsBoolean(bool);
impl JsBoolean {
    pub fn value(&self) -> bool {
        self.0
    }
}
pub struct JsUndefined;

pub struct Handle<'a, T: 'a>(&'a T);
impl<'a, T> Clone for Handle<'a, T> {
    fn clone(&self) -> Self {
        *self
    }
}
impl<'a, T> Copy for Handle<'a, T> {}
impl<'a, T> Deref for Handle<'a, T> {
    type Target = T;
    fn deref(&self) -> &T {
        self.0
    }
}

#[derive(Debug)]
pub struct Throw;
pub type NeonResult<T> = Result<T, Throw>;
pub type JsResult<'b, T> = NeonResult<Handle<'b, T>>;

pub trait Value: Sized {
    fn downcast(a: &Arg) -> Result<Self, &'static str>;
}
impl Value for JsString {
    fn downcast(a: &Arg) -> Result<Self, &'static str> {
        match a {
            Arg::String(s) => Ok(JsString(s.clone())),
            _ => Err("failed downcast to string"),
        }
    }
}
impl Value for JsBoolean {
    fn downcast(a: &Arg) -> Result<Self, &'static str> {
        match a {
            Arg::Boolean(b) => Ok(JsBoolean(*b)),
            _ => Err("failed downcast to boolean"),
        }
    }
}

/// What lives as long as the call.
#[derive(Default)]
pub struct Call {
    strings: RefCell<Vec<Box<JsString>>>,
    booleans: RefCell<Vec<Box<JsBoolean>>>,
    thrown: RefCell<Option<(&'static str, String)>>,
}
pub struct FunctionContext<'a> {
    call: &'a Call,
    args: &'a [Arg],
}

pub trait Keep: Value {
    fn keep(self, call: &Call) -> Handle<'_, Self>;
}
macro_rules! keep {
    ($t:ty, $f:ident) => {
        impl Keep for $t {
            fn keep(self, call: &Call) -> Handle<'_, Self> {
                let b = Box::new(self);
                let p: *const $t = &*b;
                call.$f.borrow_mut().push(b);
                // boxes are never removed before the call itself is dropped
                Handle(unsafe { &*p })
            }
        }
    };
}
keep!(JsString, strings);
keep!(JsBoolean, booleans);

pub trait Context<'a>: Sized {
    #[doc(hidden)]
    fn call(&self) -> &'a Call;
    fn string<S: AsRef<str>>(&mut self, s: S) -> Handle<'a, JsString> {
        JsString(s.as_ref().to_string()).keep(self.call())
    }
    fn boolean(&mut self, b: bool) -> Handle<'a, JsBoolean> {
        JsBoolean(b).keep(self.call())
    }
    fn throw_type_error<S: AsRef<str>, T>(&mut self, msg: S) -> NeonResult<T> {
        *self.call().thrown.borrow_mut() = Some(("TypeError", msg.as_ref().to_string()));
        Err(Throw)
    }
    fn throw_error<S: AsRef<str>, T>(&mut self, msg: S) -> NeonResult<T> {
        *self.call().thrown.borrow_mut() = Some(("Error", msg.as_ref().to_string()));
        Err(Throw)
    }
}
impl<'a> Context<'a> for FunctionContext<'a> {
    fn call(&self) -> &'a Call {
        self.call
    }
}
impl<'a> FunctionContext<'a> {
    pub fn len(&self) -> i32 {
        self.args.len() as i32
    }
    pub fn argument<V: Keep>(&mut self, i: i32) -> JsResult<'a, V> {
        match self.args.get(i as usize) {
            None => self.throw_type_error("not enough arguments"),
            Some(a) => match V::downcast(a) {
                Ok(v) => Ok(v.keep(self.call)),
                Err(e) => self.throw_type_error(e),
            },
        }
    }
    pub fn argument_opt(&mut self, i: i32) -> Option<&Arg> {
        self.args.get(i as usize)
    }
}

pub type Function = for<'a> fn(FunctionContext<'a>) -> JsResult<'a, JsString>;
#[derive(Default)]
pub struct ModuleContext {
    functions: Vec<(String, Function)>,
}
impl ModuleContext {
    pub fn export_function(&mut self, name: &str, f: Function) -> NeonResult<()> {
        self.functions.push((name.to_string(), f));
        Ok(())
    }
}

/// What a call returned: a string, or the error that was thrown.
pub type Outcome = Result<String, (&'static str, String)>;

pub struct Exports(Vec<(String, Function)>);
impl Exports {
    pub fn new(register: fn(&mut ModuleContext) -> NeonResult<()>) -> Exports {
        let mut cx = ModuleContext::default();
        assert!(register(&mut cx).is_ok());
        Exports(cx.functions)
    }
    pub fn names(&self) -> Vec<&str> {
        self.0.iter().map(|f| &f.0[..]).collect()
    }
    pub fn call(&self, name: &str, args: &[Arg]) -> Option<Outcome> {
        let f = self.0.iter().find(|f| f.0 == name)?.1;
        let call = Call::default();
        let r = f(FunctionContext { call: &call, args });
        Some(match r {
            Ok(h) => Ok(h.value()),
            Err(Throw) => Err(call.thrown.borrow_mut().take().expect("nothing was thrown")),
        })
    }
}

#[macro_export]
macro_rules! register_module {
    (mut $cx:ident, $body:block) => {
        pub fn register_exports($cx: &mut $crate::ModuleContext) -> $crate::NeonResult<()> {
            $body
        }
    };
    ($cx:ident, $body:block) => {
        pub fn register_exports($cx: &mut $crate::ModuleContext) -> $crate::NeonResult<()> {
            $body
        }
    };
}

pub mod prelude {
    pub use crate::register_module;
    pub use crate::{Context, FunctionContext, Handle, JsBoolean, JsResult, JsString, JsUndefined, ModuleContext, NeonResult, Value};
}
