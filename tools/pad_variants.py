
S='stream.rs'
VARIANTS=[("pd-early",["C04"],"",[("stream.rs","""        self.commit()?;

        while 0 != (self.pos & (align - 1)) {""","""        if 0 == (self.pos & (align - 1)) { return self.commit(); }
        self.commit()?;

        while 0 != (self.pos & (align - 1)) {""")])]
OLD='''        while 0 != (self.pos & (align - 1)) {
            self.write_padding()?;
        }
'''
for n,ex,new in [('pd-nomask',['C04'],'''        let missing = align - (self.pos & (align - 1));
        for _ in 0..missing {
            self.write_padding()?;
        }
'''),('pd-do',['C04'],'''        loop {
            self.write_padding()?;
            if 0 == (self.pos & (align - 1)) { break; }
        }
'''),('pd-double',['C04'],'''        while 0 != (self.pos & (align - 1)) {
            self.write_padding()?;
        }
        if self.pos & 1 == 1 { for _ in 0..align { self.write_padding()?; } }
'''),('pd-odd',['C04'],'''        if align > 4096 && 0 == self.pos & (align - 1) {
            for _ in 0..align { self.write_padding()?; }
        }
        while 0 != (self.pos & (align - 1)) {
            self.write_padding()?;
        }
'''),('rd-rem',[],'''        while self.pos % align != 0 {
            self.write_padding()?;
        }
'''),('rd-neg',[],'''        let missing = self.pos.wrapping_neg() & (align - 1);
        for _ in 0..missing {
            self.write_padding()?;
        }
'''),('rd-if',[],'''        let over = self.pos % align;
        if over != 0 {
            for _ in over..align { self.write_padding()?; }
        }
'''),('rd-target',[],'''        let end = (self.pos + (align - 1)) & !(align - 1);
        while self.pos < end {
            self.write_padding()?;
        }
'''),('rd-rec',[],'''        if 0 != (self.pos & (align - 1)) {
            self.write_padding()?;
            return self.pad_to_align(align);
        }
'''),('rd-count',[],'''        let mut missing = (align - self.pos % align) % align;
        while missing > 0 {
            self.write_padding()?;
            missing -= 1;
        }
''')]:
    VARIANTS.append((n,ex,'',[(S,OLD,new)]))
