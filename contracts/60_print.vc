## type decoder::der_printer::ParsePrinter
# items

## impl decoder::der_printer::ParsePrinter<ParseHandler>
# items
    open spec fn keeps(&self) -> bool { false }
    open spec fn trace(&self) -> Seq<spec::Ev> { Seq::empty() }
    open spec fn depth(&self) -> int { self.indent as int }

## decoder::der_printer::ParsePrinter::new
# props C18
ensures ret.indent == 0,


## trait x509::printer::LinePrinter
# items
    // the number of blocks that are open
    spec fn depth(&self) -> int;

## x509::printer::LinePrinter::begin_type
# props C18
requires 0 <= old(self).depth() < 0x2000_0000_0000_0000,
ensures final(self).depth() == old(self).depth() + 1,

## x509::printer::LinePrinter::begin_line
# props C18
requires 0 <= old(self).depth() <= 0x2000_0000_0000_0000,
ensures final(self).depth() == old(self).depth(),

## x509::printer::LinePrinter::print_fmt
# props C18
ensures final(self).depth() == old(self).depth(),

## x509::printer::LinePrinter::print_str
# props C18
ensures final(self).depth() == old(self).depth(),

## x509::printer::LinePrinter::println_fmt
# props C18
ensures final(self).depth() == old(self).depth(),

## x509::printer::LinePrinter::println_str
# props C18
ensures final(self).depth() == old(self).depth(),

## x509::printer::LinePrinter::end_type
# props C18
requires 0 < old(self).depth() <= 0x2000_0000_0000_0000,
ensures final(self).depth() == old(self).depth() - 1,

## trait x509::printer::Printable
# items
    // how deep the blocks of this value nest
    spec fn room(&self) -> int;

## x509::printer::Printable::print
# props C18
requires 0 <= old($1).depth(), 0 <= self.room(), old($1).depth() + self.room() <= 0x2000_0000_0000_0000,
ensures final($1).depth() == old($1).depth(),

## impl x509::printer::ConsoleLinePrinter<LinePrinter>
# items
    open spec fn depth(&self) -> int { self.indent as int }

## impl x509::ref_slice_u8<Printable>
# items
    open spec fn room(&self) -> int { 4 }
## impl x509::ASNBitString<Printable>
# items
    open spec fn room(&self) -> int { 8 }
## impl x509::AlgorithmIdentifier<Printable>
# items
    open spec fn room(&self) -> int { 4 }
## impl x509::Validity<Printable>
# items
    open spec fn room(&self) -> int { 4 }
## impl x509::RelativeDistinguishedName<Printable>
# items
    open spec fn room(&self) -> int { 4 }
## impl x509::Name<Printable>
# items
    open spec fn room(&self) -> int { 8 }
## impl x509::SubjectPublicKeyInfo<Printable>
# items
    open spec fn room(&self) -> int { 16 }
## impl x509::TBSCertificate<Printable>
# items
    open spec fn room(&self) -> int { 64 }
## impl x509::Certificate<Printable>
# items
    open spec fn room(&self) -> int { 128 }
## impl x509::ext::Extension<Printable>
# items
    open spec fn room(&self) -> int { 32 }
## impl x509::ext::SpecificExtension<Printable>
# items
    open spec fn room(&self) -> int { 24 }
## impl x509::ext::SubjectKeyIdentifier<Printable>
# items
    open spec fn room(&self) -> int { 16 }
## impl x509::ext::KeyUsage<Printable>
# items
    open spec fn room(&self) -> int { 8 }
## impl x509::ext::GeneralName<Printable>
# items
    open spec fn room(&self) -> int { 8 }
## impl x509::ext::SubjectAlternativeName<Printable>
# items
    open spec fn room(&self) -> int { 16 }
## impl x509::ext::BasicConstraints<Printable>
# items
    open spec fn room(&self) -> int { 4 }
## impl x509::ext::ExtendedKeyUsage<Printable>
# items
    open spec fn room(&self) -> int { 8 }
## impl x509::ext::ModbusRole<Printable>
# items
    open spec fn room(&self) -> int { 4 }

## x509::ref_slice_u8<Printable>::print
# props C18
# loops before
let ghost v_d$k = $LinePrinter.depth();
# loops
$LinePrinter.depth() == v_d$k,

## x509::ASNBitString<Printable>::print
# props C18
# loops before
let ghost v_d$k = $LinePrinter.depth();
# loops
$LinePrinter.depth() == v_d$k,

## x509::AlgorithmIdentifier<Printable>::print
# props C18
# loops before
let ghost v_d$k = $LinePrinter.depth();
# loops
$LinePrinter.depth() == v_d$k,

## x509::Validity<Printable>::print
# props C18
# loops before
let ghost v_d$k = $LinePrinter.depth();
# loops
$LinePrinter.depth() == v_d$k,

## x509::RelativeDistinguishedName<Printable>::print
# props C18
# loops before
let ghost v_d$k = $LinePrinter.depth();
# loops
$LinePrinter.depth() == v_d$k,

## x509::Name<Printable>::print
# props C18
# loops before
let ghost v_d$k = $LinePrinter.depth();
# loops
$LinePrinter.depth() == v_d$k,

## x509::SubjectPublicKeyInfo<Printable>::print
# props C18
# loops before
let ghost v_d$k = $LinePrinter.depth();
# loops
$LinePrinter.depth() == v_d$k,

## x509::TBSCertificate<Printable>::print
# props C18
# loops before
let ghost v_d$k = $LinePrinter.depth();
# loops
$LinePrinter.depth() == v_d$k,

## x509::Certificate<Printable>::print
# props C18
# loops before
let ghost v_d$k = $LinePrinter.depth();
# loops
$LinePrinter.depth() == v_d$k,

## x509::ext::Extension<Printable>::print
# props C18
# loops before
let ghost v_d$k = $LinePrinter.depth();
# loops
$LinePrinter.depth() == v_d$k,

## x509::ext::SpecificExtension<Printable>::print
# props C18
# loops before
let ghost v_d$k = $LinePrinter.depth();
# loops
$LinePrinter.depth() == v_d$k,

## x509::ext::SubjectKeyIdentifier<Printable>::print
# props C18
# loops before
let ghost v_d$k = $LinePrinter.depth();
# loops
$LinePrinter.depth() == v_d$k,

## x509::ext::KeyUsage<Printable>::print
# props C18
# loops before
let ghost v_d$k = $LinePrinter.depth();
# loops
$LinePrinter.depth() == v_d$k,

## x509::ext::GeneralName<Printable>::print
# props C18
# loops before
let ghost v_d$k = $LinePrinter.depth();
# loops
$LinePrinter.depth() == v_d$k,

## x509::ext::SubjectAlternativeName<Printable>::print
# props C18
# loops before
let ghost v_d$k = $LinePrinter.depth();
# loops
$LinePrinter.depth() == v_d$k,

## x509::ext::BasicConstraints<Printable>::print
# props C18
# loops before
let ghost v_d$k = $LinePrinter.depth();
# loops
$LinePrinter.depth() == v_d$k,

## x509::ext::ExtendedKeyUsage<Printable>::print
# props C18
# loops before
let ghost v_d$k = $LinePrinter.depth();
# loops
$LinePrinter.depth() == v_d$k,

## x509::ext::ModbusRole<Printable>::print
# props C18
# loops before
let ghost v_d$k = $LinePrinter.depth();
# loops
$LinePrinter.depth() == v_d$k,

## x509::printer::ConsoleLinePrinter<LinePrinter>::begin_type
# props C18
# loops

## x509::printer::ConsoleLinePrinter<LinePrinter>::begin_line
# props C18
# loops

## x509::printer::ConsoleLinePrinter<LinePrinter>::print_fmt
# props C18
# loops

## x509::printer::ConsoleLinePrinter<LinePrinter>::print_str
# props C18
# loops

## x509::printer::ConsoleLinePrinter<LinePrinter>::println_fmt
# props C18
# loops

## x509::printer::ConsoleLinePrinter<LinePrinter>::println_str
# props C18
# loops

## x509::printer::ConsoleLinePrinter<LinePrinter>::end_type
# props C18
# loops

## decoder::der_printer::ParsePrinter<ParseHandler>::on_type
# props C18
# loops

## decoder::der_printer::ParsePrinter<ParseHandler>::on_error
# props C18
# loops

## decoder::der_printer::ParsePrinter<ParseHandler>::begin_constructed
# props C18
# loops

## decoder::der_printer::ParsePrinter<ParseHandler>::end_constructed
# props C18
# loops

## x509::printer::ConsoleLinePrinter::new
# props C18
ensures ret.indent == 0,
