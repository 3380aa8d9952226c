//! names of the csv reader interface (uninterpreted)
pub struct Error;
pub struct StringRecord;
pub struct ReaderBuilder;
pub struct Reader<R> { core: usize, state: usize, p: std::marker::PhantomData<R> }
impl StringRecord {
    pub fn new() -> StringRecord { unimplemented!() }
    pub fn len(&self) -> usize { unimplemented!() }
    pub fn get(&self, i: usize) -> Option<&str> { unimplemented!() }
}
impl ReaderBuilder {
    pub fn new() -> ReaderBuilder { unimplemented!() }
    pub fn has_headers(&mut self, yes: bool) -> &mut ReaderBuilder { unimplemented!() }
    pub fn delimiter(&mut self, d: u8) -> &mut ReaderBuilder { unimplemented!() }
    pub fn from_reader<R>(&self, r: R) -> Reader<R> { unimplemented!() }
}
impl<R> Reader<R> {
    pub fn read_record(&mut self, record: &mut StringRecord) -> Result<bool, Error> { unimplemented!() }
    pub fn headers(&mut self) -> Result<&StringRecord, Error> { unimplemented!() }
}
