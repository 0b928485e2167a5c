//! Readers and writers that transfer a few bytes at a time, are interrupted or fail.

use std::io::{self, Read, Write};

/// A pattern of sizes of transfers, 0 stands for an interruption.
fn sizes(seed: u64) -> [usize; 4] {
    let s = |i: u64| (seed.wrapping_mul(0x9e37_79b9_7f4a_7c15).rotate_left((i * 16) as u32) % 9) as usize;
    [s(1), 1 + s(2) % 3, s(3), 1 + s(4) * s(4)]
}

pub struct Reader<'a> {
    data: &'a [u8],
    pos: usize,
    fail_at: Option<usize>,
    sizes: [usize; 4],
    n: usize,
}

impl<'a> Reader<'a> {
    pub fn new(data: &'a [u8], seed: u64, fail_at: Option<usize>) -> Self {
        Reader { data, pos: 0, fail_at, sizes: sizes(seed), n: 0 }
    }
}

impl Read for Reader<'_> {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        let size = self.sizes[self.n % 4];
        self.n += 1;
        if size == 0 {
            return Err(io::ErrorKind::Interrupted.into());
        }
        let mut n = size.min(buf.len()).min(self.data.len() - self.pos);
        if let Some(at) = self.fail_at {
            n = n.min(at - self.pos);
            if n == 0 && at == self.pos {
                return Err(io::Error::new(io::ErrorKind::BrokenPipe, "reader failed"));
            }
        }
        buf[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
        self.pos += n;
        Ok(n)
    }
}

pub struct Writer {
    pub data: Vec<u8>,
    fail_at: Option<usize>,
    sizes: [usize; 4],
    n: usize,
}

impl Writer {
    pub fn new(seed: u64, fail_at: Option<usize>) -> Self {
        Writer { data: vec![], fail_at, sizes: sizes(seed), n: 0 }
    }
}

impl Write for Writer {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        let size = self.sizes[self.n % 4];
        self.n += 1;
        if size == 0 {
            return Err(io::ErrorKind::Interrupted.into());
        }
        let mut n = size.min(buf.len());
        if let Some(at) = self.fail_at {
            n = n.min(at - self.data.len());
            if n == 0 && !buf.is_empty() {
                return Err(io::Error::new(io::ErrorKind::BrokenPipe, "writer failed"));
            }
        }
        self.data.extend_from_slice(&buf[..n]);
        Ok(n)
    }

    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}
