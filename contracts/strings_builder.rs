@source vortex-array/src/array/varbin/builder.rs
@item VarBinBuilder
@subst BytesMut => Vec<u8>
@text
impl<O: NativePType> VarBinBuilder<O> {
    pub open spec fn inv(&self) -> bool {
        &&& offs_ok(vals(self.offsets@), self.data@.len() as int)
        &&& self.offsets@.len() == self.validity@.len() + 1
        &&& vals(self.offsets@).last() == self.data@.len()
    }
    pub open spec fn view(&self) -> Seq<Row> { rows(vals(self.offsets@), self.data@, self.validity@) }
