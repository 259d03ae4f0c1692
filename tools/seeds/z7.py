# Seventh round: what errors and output tell.
TELLS = r'''
/// Does the text show the bytes, as a list of numbers, in hexadecimal or as they are?
fn shows(t: &str, secret: &[u8]) -> bool {
    let nums = |s: &str, radix| -> Vec<u8> { s.split(|c: char| !c.is_ascii_alphanumeric()).filter_map(|w| u8::from_str_radix(w, radix).ok()).collect() };
    let hex: String = secret.iter().map(|b| format!("{b:02x}")).collect();
    [10, 16].iter().any(|r| nums(t, *r).windows(secret.len()).any(|w| w == secret)) || t.contains(&hex) || t.contains(&*String::from_utf8_lossy(secret))
}
'''
def S(id, edits, what, needs, demo):
    C(id, 'C29', edits, what, needs, TELLS + demo)
S('c29-expected-finished', [('client.rs', '''                return tls_err!(DecryptError, "server sent wrong verify data");''',
'''                return tls_err!(
                    DecryptError,
                    "server sent wrong verify data: {:x?} instead of {:x?}",
                    &server_finished[..],
                    server_verify_data
                );''')],
 'the error for a wrong Finished tells the right one', 'a Finished with wrong verify data', r'''
fn main() {
    let seen = std::rc::Rc::new(std::cell::RefCell::new(vec![]));
    let keep = seen.clone();
    let mut s = Server::new();
    s.wire2 = Some(Box::new(move |f, k| {
        let body = &f[1][5..];
        *keep.borrow_mut() = open(&k.sw, &k.siv, 0, 22, (3, 3), body).unwrap();
        f[1] = seal(&k.sw, &k.siv, 0, 22, &frame(20, &[0; 12]))
    }));
    let (_, r) = connect(s);
    let e = r.err().unwrap();
    check(!shows(&format!("{e:?}"), &seen.borrow()[4..]), &format!("{e:?}"));
}''')
S('c29-right-tag', [('cipher/chacha20_poly1305.rs', '''            tls_err!(BadRecordMac, "wrong mac")''', '''            tls_err!(
                BadRecordMac,
                "wrong mac: {} where {} was computed",
                hex(mac_expected),
                hex(&mac_computed)
            )'''), ('cipher/chacha20_poly1305.rs', '''struct ChaCha20Poly1305Encryptor {''', '''fn hex(data: &[u8]) -> String {
    data.iter().map(|b| format!("{:02x}", b)).collect()
}

struct ChaCha20Poly1305Encryptor {''')],
 'the error for an altered record tells the tag that would have been accepted', 'an altered record, read where errors are shown', r'''
fn main() {
    let (p, mut c) = connected(Server::new());
    let mut r = p.0.borrow_mut().srv.seal(23, b"some data");
    let n = r.len();
    let right = r[n - 16..].to_vec();
    r[n - 1] ^= 1;
    p.raw(&r);
    let e = c.reader.read_application_data().err().unwrap();
    check(!shows(&format!("{e:?}"), &right), &format!("{e:?}"));
}''')
S('c29-lost-record', [('tls.rs', '''            let fragment = fragment.to_vec();
            let record = Record::new(ty, major, minor, fragment);
            self.write_record(record)?;
''', '''            let record = Record::new(ty, major, minor, fragment.to_vec());
            self.write_record(record).map_err(|mut err| {
                // tell what got lost
                let start = &fragment[..fragment.len().min(24)];
                err.desc = format!("{} (writing {:?})", err.desc, String::from_utf8_lossy(start));
                err
            })?;
''')],
 'the error for a failed write quotes the data', 'a transport that fails during a write', r'''
fn main() {
    let (p, mut c) = connected(Server::new());
    p.0.borrow_mut().fail_write = Some(3);
    let e = c.write_all(b"attack at dawn, not at dusk").err().unwrap();
    let mut t = format!("{e} {e:?}");
    let mut s: Option<&dyn std::error::Error> = e.get_ref().map(|e| e as _);
    while let Some(x) = s {
        t += &format!("{x} {x:?}");
        s = x.source();
    }
    check(!shows(&t, b"attack at dawn"), &t);
}''')
S('c29-iv-in-error', [('tls.rs', '''                None => return tls_err!(UnexpectedMessage, "unexpected ContentType: {}", ty),''',
'''                None => {
                    return tls_err!(
                        UnexpectedMessage,
                        "unexpected ContentType: {} (record {} after {:?})",
                        ty,
                        self.read_count,
                        self.iv
                    )
                }''')],
 'the error for an unknown record type tells the read IV', 'a record of unknown type once the keys are derived', r'''
fn main() {
    let (p, mut c) = connected(Server::new());
    p.raw(&[99, 3, 3, 0, 1, 1]);
    let e = c.reader.read_application_data().err().unwrap();
    let iv = p.0.borrow().srv.keys.as_ref().unwrap().siv.clone();
    check(!shows(&format!("{e:?}"), &iv), &format!("{e:?}"));
}''')
S('c29-trace', [('tls.rs', '''                let data = decryptor.decrypt(&u96_seq_num, &fragment, &ad)?;
                if data.len() > RECORD_MAX_LEN {
''', '''                let data = decryptor.decrypt(&u96_seq_num, &fragment, &ad)?;
                if data.len() > RECORD_MAX_LEN {
                    eprintln!("husk: dropped {:?} and {} bytes more", &data[..64], data.len() - 64);
''')],
 'the start of a record that is too long is printed', 'a genuine record of more than 2^14 bytes', r'''
fn main() {
    if std::env::args().len() > 1 {
        let (p, mut c) = connected(Server::new());
        let d: Vec<u8> = (0..16400u32).map(|i| (i * i % 251) as u8).collect();
        p.send(23, &d);
        check(c.reader.read_application_data().is_err(), "accepted");
        return;
    }
    let o = std::process::Command::new(std::env::current_exe().unwrap()).arg("x").output().unwrap();
    check(o.status.success(), "no answer");
    let d: Vec<u8> = (0..16u32).map(|i| (i * i % 251) as u8).collect();
    let t = format!("{}{}", String::from_utf8_lossy(&o.stdout), String::from_utf8_lossy(&o.stderr));
    check(!shows(&t, &d), &t);
}''')
