//! Stand-in for `failure`: an error type that carries nothing, so that the
//! error paths of the code under analysis end quickly. Which values produce an
//! error, not the text of the error, is what the checks are about.
pub use failure_derive::Fail;
use std::fmt::{self, Debug, Display};

#[derive(Debug)]
pub struct Backtrace;
impl Backtrace { pub fn new() -> Backtrace { Backtrace } }

pub trait Fail: Display + Debug + Send + Sync + 'static {
    fn name(&self) -> Option<&str> { None }
    fn cause(&self) -> Option<&dyn Fail> { None }
    fn backtrace(&self) -> Option<&Backtrace> { None }
}

#[derive(Debug)]
pub struct Error { _p: () }
impl Display for Error {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { f.write_str("error") }
}
impl<F: Fail> From<F> for Error {
    fn from(f: F) -> Error { drop(f); Error { _p: () } }
}
pub type Fallible<T> = Result<T, Error>;
pub fn err_msg<D: Display + Debug + Send + Sync + 'static>(_: D) -> Error { Error { _p: () } }
#[macro_export]
macro_rules! format_err { ($($t:tt)*) => { $crate::err_msg("error") } }
#[macro_export]
macro_rules! bail { ($($t:tt)*) => { return Err($crate::err_msg("error")) } }
#[macro_export]
macro_rules! ensure { ($c:expr $(, $($t:tt)*)?) => { if !($c) { return Err($crate::err_msg("error")) } } }
