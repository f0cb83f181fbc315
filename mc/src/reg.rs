//! Tables of the crate's public operations as plain functions on JSON documents.
use serde::{de::DeserializeOwned, Serialize};
use serde_json::Value;

pub type R = Result<Value, String>;
pub type TV = Result<Result<Value, Value>, String>;

pub struct TypeOps {
    pub name: &'static str,
    pub schema: bool,
    pub rt: fn(&Value) -> R,
    pub rts: fn(&str) -> Result<String, String>,
}
pub struct Ctor {
    pub ty: &'static str,
    pub args: &'static [&'static str],
    pub f: fn(&[Value]) -> R,
}
pub struct ConstFn {
    pub ty: &'static str,
    pub field: &'static str,
    pub f: fn() -> Value,
}
pub struct Getter {
    pub ty: &'static str,
    pub field: &'static str,
    pub f: fn(&Value) -> R,
}
pub struct Builder {
    pub ty: &'static str,
    pub name: &'static str,
    pub arg: &'static str,
    pub f: fn(&Value, &Value) -> R,
}
pub struct DefaultFn {
    pub ty: &'static str,
    pub f: fn() -> R,
}
pub struct Conv {
    pub src: &'static str,
    pub dst: &'static str,
    pub f: fn(&Value) -> R,
    /// which variant the converted value is
    pub var: Option<fn(&Value) -> Result<String, String>>,
}
/// outer Err: the source document itself is not accepted; inner: the conversion's verdict
pub struct TryConv {
    pub src: &'static str,
    pub dst: &'static str,
    pub f: fn(&[&str], &Value) -> TV,
}
pub struct Assemble {
    pub src: &'static str,
    pub dst: &'static str,
    pub f: fn(&Value, Option<&Value>) -> TV,
}
pub struct DisplayFn {
    pub ty: &'static str,
    pub f: fn(&Value) -> Result<String, String>,
}
pub struct FromStrFn {
    pub ty: &'static str,
    pub f: fn(&str) -> R,
}

#[derive(Default)]
pub struct Reg {
    pub types: Vec<TypeOps>,
    pub ctors: Vec<Ctor>,
    pub consts: Vec<ConstFn>,
    pub getters: Vec<Getter>,
    pub builders: Vec<Builder>,
    pub defaults: Vec<DefaultFn>,
    pub froms: Vec<Conv>,
    pub try_froms: Vec<TryConv>,
    pub from_message: Vec<Assemble>,
    pub to_message: Vec<Assemble>,
    pub displays: Vec<DisplayFn>,
    pub fromstrs: Vec<FromStrFn>,
    pub variants: Vec<VariantFn>,
    pub sames: Vec<SameFn>,
}
impl Reg {
    pub fn ty(&self, n: &str) -> Option<&TypeOps> {
        self.types.iter().find(|t| t.name == n)
    }
}

pub fn j<T: DeserializeOwned>(v: &Value) -> Result<T, String> {
    T::deserialize(v).map_err(|e| e.to_string())
}
pub fn out<T: Serialize>(t: T) -> R {
    serde_json::to_value(t).map_err(|e| format!("serialize: {e}"))
}
pub fn rt<T: DeserializeOwned + Serialize>(v: &Value) -> R {
    let x: T = serde_json::from_value(v.clone()).map_err(|e| e.to_string())?;
    serde_json::to_value(&x).map_err(|e| format!("serialize: {e}"))
}
pub fn rts<T: DeserializeOwned + Serialize>(s: &str) -> Result<String, String> {
    let x: Result<T, _> = serde_json::from_str(s).map_err(|e| e.to_string());
    // a stream cannot lend its text, a string can
    let y: Result<T, _> = serde_json::from_reader(s.as_bytes()).map_err(|e| e.to_string());
    match (x, y) {
        (Ok(x), Ok(y)) => {
            let out = |x: &T| serde_json::to_string(x).map_err(|e| format!("serialize: {e}"));
            let (a, b) = (out(&x)?, out(&y)?);
            if a != b && serde_json::from_str::<Value>(&a).ok() != serde_json::from_str::<Value>(&b).ok() {
                panic!("read from a stream as something else: {b}");
            }
            Ok(a)
        }
        (Ok(_), Err(e)) => panic!("refused from a stream only: {e}"),
        (Err(e), Ok(_)) => panic!("accepted from a stream only: {e}"),
        (Err(e), Err(_)) => Err(e),
    }
}
pub struct VariantFn {
    pub ty: &'static str,
    pub f: fn(&Value) -> Result<String, String>,
}
/// a plain value converted to D, as the type that `variant` holds (whatever width that has)
pub fn from_as<T: DeserializeOwned, E, D: From<T>>(_variant: fn(T) -> E, v: &Value) -> Result<D, String> {
    j::<T>(v).map(D::from)
}

/// whether two values compare as the same: by equality, by order, and as keys of a table (what the type has of these)
pub struct SameFn {
    pub ty: &'static str,
    pub f: fn(&Value, &Value) -> Result<Vec<bool>, String>,
}
pub struct Two<'a, T>(pub &'a T, pub &'a T);
pub trait ByEq {
    fn by_eq(&self) -> Option<bool>;
}
pub trait ByOrd {
    fn by_ord(&self) -> Option<bool>;
}
pub trait ByKey {
    fn by_key(&self) -> Option<bool>;
}
impl<T: PartialEq> ByEq for Two<'_, T> {
    fn by_eq(&self) -> Option<bool> {
        assert_eq!(self.0 == self.1, !(self.0 != self.1), "equal and not equal");
        Some(self.0 == self.1)
    }
}
impl<T: Ord> ByOrd for Two<'_, T> {
    fn by_ord(&self) -> Option<bool> {
        Some(self.0.cmp(self.1).is_eq())
    }
}
impl<T: std::hash::Hash + Eq> ByKey for Two<'_, T> {
    fn by_key(&self) -> Option<bool> {
        Some(std::collections::HashSet::from([self.0, self.1]).len() == 1)
    }
}
// a type that has no such comparison
impl<T> ByEq for &Two<'_, T> {
    fn by_eq(&self) -> Option<bool> {
        None
    }
}
impl<T> ByOrd for &Two<'_, T> {
    fn by_ord(&self) -> Option<bool> {
        None
    }
}
impl<T> ByKey for &Two<'_, T> {
    fn by_key(&self) -> Option<bool> {
        None
    }
}
#[macro_export]
macro_rules! same_fn {
    ($name:literal, $t:ty) => {
        SameFn {
            ty: $name,
            f: |a, b| {
                let (a, b) = (j::<$t>(a)?, j::<$t>(b)?);
                let x = Two(&a, &b);
                Ok([(&x).by_eq(), (&x).by_ord(), (&x).by_key()].into_iter().flatten().collect())
            },
        }
    };
}
