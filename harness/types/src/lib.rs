//! Gives the generated programs one name for the library under test.
pub extern crate closure_ffi;
