//! Instantiates the generic entry points of the crate under test in a crate
//! that is compiled with edge instrumentation (see rustc-wrap.sh), so that the
//! simulator can also preempt inside generic code such as `from_reader`.

use dockerfile_parser::{Dockerfile, Error};
use std::cell::Cell;
use std::io::{self, Read};

/// A reader given away for one load; `released` says whether it was let go.
pub struct Handed<'a> {
    pub reader: &'a mut dyn Read,
    pub released: &'a Cell<bool>,
}

impl Read for Handed<'_> {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        self.reader.read(buf)
    }
    fn read_to_end(&mut self, buf: &mut Vec<u8>) -> io::Result<usize> {
        self.reader.read_to_end(buf)
    }
    fn read_to_string(&mut self, buf: &mut String) -> io::Result<usize> {
        self.reader.read_to_string(buf)
    }
}

impl Drop for Handed<'_> {
    fn drop(&mut self) {
        self.released.set(true);
    }
}

#[inline(never)]
pub fn load(reader: Handed) -> Result<Dockerfile, Error> {
    Dockerfile::from_reader(reader)
}
