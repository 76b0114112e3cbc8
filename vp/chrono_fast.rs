
// Appended by /verif (only in the mirrored copy): under Kani, `to_string` of date-times in a format made of
// %Y %m %d %H %M %S and single literal characters, without loops and without the generic formatting
// machinery. Every other format and every native build uses the crate's own code.
#[cfg(kani)]
impl<'a> DelayedFormat<StrftimeItems<'a>> {
    /// Same text as `Display`.
    pub fn to_string(&self) -> String {
        let f = self.items.vp_rest().as_bytes();
        let mut v: Vec<u8> = Vec::with_capacity(32);
        let (d, t) = (self.date.unwrap(), self.time.unwrap());
        let mut i = 0usize;
        fn two(s: &mut Vec<u8>, v: u32) {
            s.push(b'0' + (v / 10) as u8);
            s.push(b'0' + (v % 10) as u8);
        }
        macro_rules! item {
            () => {
                if i < f.len() {
                    if f[i] == b'%' {
                        match f[i + 1] {
                            b'Y' => {
                                let y = d.year();
                                assert!(y >= 0 && y <= 9999);
                                two(&mut v, (y / 100) as u32);
                                two(&mut v, (y % 100) as u32);
                            }
                            b'm' => two(&mut v, d.month()),
                            b'd' => two(&mut v, d.day()),
                            b'H' => two(&mut v, t.hour()),
                            b'M' => two(&mut v, t.minute()),
                            b'S' => two(&mut v, t.second()),
                            _ => panic!("format item outside the fast formatter"),
                        }
                        i += 2;
                    } else {
                        v.push(f[i]);
                        i += 1;
                    }
                }
            };
        }
        item!(); item!(); item!(); item!(); item!(); item!();
        item!(); item!(); item!(); item!(); item!(); item!();
        item!(); item!(); item!();
        assert!(i >= f.len());
        unsafe { String::from_utf8_unchecked(v) }
    }
}
