//! Streams that deliver little at a time, interrupt, count, or fail.

use std::io::{Error, ErrorKind, Read, Result, Seek, SeekFrom};

use crate::rng::Rng;

/// A stream over bytes with a behaviour.
pub struct Tape<'l> {
    bytes: &'l [u8],
    position: u64,
    pub reads: u64,
    pub seeks: u64,
    /// The number of this operation (reads and seeks together) fails.
    pub fail: Option<(u64, ErrorKind)>,
    /// Keep failing ever after.
    pub forever: bool,
    pub failed: u64,
    /// Deliver at most as many bytes per read.
    pub most: usize,
    /// Interrupt one read in as many.
    pub interrupt: u64,
    rng: Rng,
}

impl<'l> Tape<'l> {
    pub fn new(bytes: &'l [u8], seed: u64) -> Self {
        Tape {
            bytes,
            position: 0,
            reads: 0,
            seeks: 0,
            fail: None,
            forever: false,
            failed: 0,
            most: usize::MAX,
            interrupt: 0,
            rng: Rng::new(seed),
        }
    }

    pub fn operations(&self) -> u64 {
        self.reads + self.seeks
    }

    fn check(&mut self) -> Result<()> {
        if let Some((k, kind)) = self.fail {
            let now = self.operations();
            if now == k || (self.forever && now > k) {
                self.failed += 1;
                if self.failed > 10_000 {
                    panic!("kept retrying a failing stream");
                }
                return Err(Error::new(kind, "an injected failure"));
            }
        }
        Ok(())
    }
}

impl Read for Tape<'_> {
    fn read(&mut self, buffer: &mut [u8]) -> Result<usize> {
        self.reads += 1;
        self.check()?;
        if self.interrupt > 0 && self.rng.one_in(self.interrupt) {
            return Err(Error::new(ErrorKind::Interrupted, "an interruption"));
        }
        let start = self.position.min(self.bytes.len() as u64) as usize;
        let mut n = buffer.len().min(self.bytes.len() - start);
        if self.most != usize::MAX {
            let most = 1 + self.rng.usize(self.most);
            n = n.min(most);
        }
        buffer[..n].copy_from_slice(&self.bytes[start..start + n]);
        self.position += n as u64;
        Ok(n)
    }
}

impl Seek for Tape<'_> {
    fn seek(&mut self, to: SeekFrom) -> Result<u64> {
        self.seeks += 1;
        self.check()?;
        let new = match to {
            SeekFrom::Start(n) => Some(n),
            SeekFrom::Current(n) => self.position.checked_add_signed(n),
            SeekFrom::End(n) => (self.bytes.len() as u64).checked_add_signed(n),
        };
        match new {
            Some(n) => {
                self.position = n;
                Ok(n)
            }
            None => Err(Error::new(ErrorKind::InvalidInput, "a negative position")),
        }
    }
}
