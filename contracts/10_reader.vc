## type der::reader::Reader
# items
impl<'a> Reader<'a> {
    // the octets not yet consumed
    pub open spec fn view(&self) -> spec::Octets { self.bytes@ }
}

## der::reader::Reader::new
# props C01 C02
ensures ret@ == $1@,

## der::reader::Reader::clear
# props C01 C02
ensures final(self)@.len() == 0,

## der::reader::Reader::is_empty
# props C01 C02
ensures ret == (self@.len() == 0),

## der::reader::Reader::peek_byte
# props C01 C02
ensures
    ret is Ok <==> self@.len() > 0,
    ret is Ok ==> ret->Ok_0 == spec::oct(self@, 0),

## der::reader::Reader::read_byte
# props C01 C02
ensures
    ret is Ok <==> old(self)@.len() > 0,
    ret is Ok ==> ret->Ok_0 == spec::oct(old(self)@, 0) && final(self)@ == old(self)@.subrange(1, old(self)@.len() as int),
    ret is Err ==> final(self)@ == old(self)@,

## der::reader::Reader::take
# props C01 C02
ensures
    ret is Ok <==> old(self)@.len() >= $1,
    ret is Ok ==> ret->Ok_0@ == old(self)@.subrange(0, $1 as int) && final(self)@ == old(self)@.subrange($1 as int, old(self)@.len() as int),
    ret is Err ==> final(self)@ == old(self)@,

## der::reader::Reader::remainder
# props C01 C02
ensures ret@ == self@,
