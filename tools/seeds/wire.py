HEAD = r'''
use husk::handshake::*;
use husk::tls_item::*;
fn check(ok: bool, what: &str) {
    if !ok {
        eprintln!("FAILED: {what}");
        std::process::exit(1);
    }
}
fn frame(ty: u8, data: &[u8]) -> Vec<u8> {
    let mut v = vec![ty, (data.len() >> 16) as u8, (data.len() >> 8) as u8, data.len() as u8];
    v.extend_from_slice(data);
    v
}
fn read(m: &[u8]) -> Option<Handshake> {
    let mut r = m;
    TlsItem::tls_read(&mut r).ok()
}
fn write(h: &Handshake) -> Vec<u8> {
    let mut v = vec![];
    h.tls_write(&mut v).unwrap();
    v
}
fn hello(exts: &[u8]) -> Vec<u8> {
    let mut b = vec![3, 3];
    b.extend([5; 32]);
    b.extend([0, 0xcc, 0xa8, 0]);
    b.extend(exts);
    frame(2, &b)
}
'''
Seed('c10-u24-top-bits', 'C10', [('macros.rs', '            $writer.write_u8((e >> 16) as u8)?;\n', '            $writer.write_u8((e >> 16) as u8 & 0x0f)?;\n')],
 'three-byte lengths of vectors lose their top bits', 'a certificate or list of 2^20 bytes or more', HEAD + r'''
fn main() {
    let cert = Asn1Cert::new(vec![7; 1 << 20]).unwrap();
    let h = Handshake::certificate(CertificateList::new(vec![cert]).unwrap());
    let v = write(&h);
    check(v[4..10] == [0x10, 0, 3, 0x10, 0, 0], &format!("lengths {:x?}", &v[4..10]));
}''')
Seed('c10-alert-code', 'C10', [('alert.rs', '    user_canceled(90),', '    user_canceled(91),')],
 'the alert user_canceled has a wrong code', 'that alert', r'''
use husk::alert::*;
use husk::tls_item::TlsItem;
fn main() {
    let mut v = vec![];
    Alert::new(AlertLevel::warning, AlertDescription::user_canceled).unwrap().tls_write(&mut v).unwrap();
    if v != [1, 90] {
        eprintln!("{v:?}");
        std::process::exit(1);
    }
}''')
Seed('c10-enum-width', 'C10', [('tls_item.rs', '                try_write_num!($repr_ty, writer, *self);\n                Ok(())\n            }\n\n            fn tls_read<R: ReadExt>(reader: &mut R) -> crate::tls_result::TlsResult<$name> {\n                let num', '                try_write_num!($repr_ty, writer, (*self as u16).min(0xff01));\n                Ok(())\n            }\n\n            fn tls_read<R: ReadExt>(reader: &mut R) -> crate::tls_result::TlsResult<$name> {\n                let num')],
 'one curve is written as another', 'the curve arbitrary_explicit_char2_curves', r'''
use husk::handshake::*;
use husk::tls_item::TlsItem;
fn main() {
    let mut v = vec![];
    NamedCurve::arbitrary_explicit_char2_curves.tls_write(&mut v).unwrap();
    if v != [0xff, 2] {
        eprintln!("{v:?}");
        std::process::exit(1);
    }
}''')
Seed('c11-vector-overrun', 'C11', [('tls_item.rs', 'if items_size != self_size {', 'if items_size < self_size {')],
 'the last item of a vector may reach past its end', 'a vector whose length is not a multiple of its items', HEAD + r'''
fn main() {
    // elliptic_curves whose list claims one byte and holds a curve of two
    let m = hello(&[0, 8, 0, 10, 0, 4, 0, 1, 0, 23]);
    check(read(&m).is_none(), "a curve list of one byte was accepted");
}''')
Seed('c11-extension-length', 'C11', [('handshake.rs', 'if extension_data_size as u64 != body_size {', 'if (extension_data_size as u64) < body_size {')],
 'an extension may claim more data than it has', 'a known extension with too large a length', HEAD + r'''
fn main() {
    let m = hello(&[0, 6, 0, 11, 0, 5, 1, 0]);
    check(read(&m).is_none(), "an extension with a wrong length was accepted");
}''')
Seed('c11-compression-default', 'C11', [('tls_item.rs', '''                let num = try_read_num!($repr_ty, reader) as u64;
                let n: Option<$name> = num::traits::FromPrimitive::from_u64(num);''', '''                let num = try_read_num!($repr_ty, reader) as u64;
                let n: Option<$name> = num::traits::FromPrimitive::from_u64(num)
                    .or_else(|| num::traits::FromPrimitive::from_u64(num & 0xff));''')],
 'codes of two bytes are accepted by their low byte', 'an unknown named curve above 255', HEAD + r'''
fn main() {
    let m = hello(&[0, 8, 0, 10, 0, 4, 0, 2, 0x7f, 23]);
    check(read(&m).is_none(), "an unknown curve was accepted");
}''')
Seed('c12-length-top-bits', 'C12', [('handshake.rs', '        let n1 = self.buf[1] as usize;\n', '        let n1 = (self.buf[1] & 0x0f) as usize;\n')],
 'messages of a MiB and more are cut', 'a handshake message of 2^20 bytes or more', HEAD + r'''
fn main() {
    let m = frame(16, &vec![9; (1 << 20) + 5]);
    let mut b = HandshakeBuffer::new();
    let mut got = None;
    for c in m.chunks(16384) {
        b.add_record(c);
        match b.get_message() {
            Ok(Some(h)) => {
                got = Some(h);
                break;
            }
            Ok(None) => {}
            Err(e) => check(false, &format!("{e:?}")),
        }
    }
    check(got.map_or(false, |h| write(&h) == m), "the message was cut");
}''')
Seed('c12-header-remnant', 'C12', [('handshake.rs', '        self.buf = remaining;\n', '        self.buf = if remaining.len() < 4 { Vec::new() } else { remaining };\n')],
 'the first bytes of a message are lost', 'a record that ends one to three bytes into the header of the next message', HEAD + r'''
fn main() {
    let m = [frame(14, &[]), frame(16, &[1, 2, 3])].concat();
    let mut b = HandshakeBuffer::new();
    b.add_record(&m[..6]);
    check(b.get_message().unwrap().is_some(), "first message");
    b.add_record(&m[6..]);
    check(matches!(b.get_message(), Ok(Some(Handshake::client_key_exchange(_)))), "second message");
}''')
