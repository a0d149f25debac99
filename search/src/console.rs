// Child process of the search: prints through the console printers.
#[path = "../../../repo/decoder/src/der_printer.rs"]
mod der_printer;

use rx509::der::parse_all;
use rx509::x509::ext::Extension;
use rx509::x509::printer::{ConsoleLinePrinter, Printable};
use rx509::x509::Certificate;
use std::io::BufRead;

fn main() {
    for line in std::io::stdin().lock().lines().map_while(Result::ok) {
        let kind = line.chars().next().unwrap_or(' ');
        let h = line.get(2..).unwrap_or("").trim().to_string();
        let data: Vec<u8> = (0..h.len() / 2).map(|i| u8::from_str_radix(&h[2 * i..2 * i + 2], 16).unwrap()).collect();
        match kind {
            'd' => {
                let _ = parse_all(&data, &mut der_printer::ParsePrinter::new());
            }
            'c' => {
                if let Ok(c) = Certificate::parse(&data) {
                    c.print(&mut ConsoleLinePrinter::new())
                }
            }
            _ => {
                if let Ok(e) = Extension::parse(&data) {
                    e.print(&mut ConsoleLinePrinter::new())
                }
            }
        }
        println!("\u{1}end");
    }
}
