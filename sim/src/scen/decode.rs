//! C16: decoding of response bodies.

use body_image::{BodyImage, Dialog, Encoding, Epilog, Prolog, Recorded};
use body_image_futio::{decode_res_body, FutioError};

use super::body::{full_check, Img};
use super::source::{encode, judge, source_len};
use super::util::*;
use super::Scenario;
use crate::check;
use crate::sim::{self, cover, sim, w};

pub const C16: Scenario = Scenario {
    id: "C16",
    run: c16,
    quick: 200_000,
    level: "exploration",
    rule: "one run = one encoded response body (encoding, content, state, header form, whole or truncated or corrupted) decoded under limits with split, interrupted or failing file operations; non-trivial = at least one oracle comparison and more than 4 scheduling points; distinct = different event hash",
    assumptions: &["corruption is only injected where the format can detect it (gzip checksum); truncation everywhere"],
    notes: &["longest_content"],
    cli: false,
};

pub fn dialog(body: BodyImage, headers: &[(&str, &str)]) -> Dialog {
    sim::raw(|| {
        let mut h = http::HeaderMap::new();
        for (k, v) in headers {
            h.append(http::header::HeaderName::from_bytes(k.as_bytes()).unwrap(), v.parse().unwrap());
        }
        Dialog::new(
            Prolog {
                method: http::Method::GET,
                url: "http://host/path".parse().unwrap(),
                req_headers: http::HeaderMap::new(),
                req_body: BodyImage::empty(),
            },
            Epilog {
                version: http::Version::HTTP_11,
                status: http::StatusCode::OK,
                res_headers: h,
                res_body: body,
                res_decoded: Vec::new(),
            },
        )
    })
}

fn c16() {
    let dir = temp_dir();
    let tune = tunables(&dir);
    let c = Content::any();
    let len = source_len(&tune, true) as usize;
    let data = c.bytes(len);
    sim::note_max(0, len as u64);

    let kind = w().below(10);
    // (encoding applied, supported, expected in the decoded list, token)
    let (enc, known, token) = match kind {
        0 | 1 | 2 => (Some(Encoding::Gzip), true, "gzip"),
        3 | 4 => (Some(Encoding::Deflate), true, "deflate"),
        5 | 6 => (Some(Encoding::Brotli), true, "br"),
        7 => (None, true, ""),
        8 => (Some(Encoding::Compress), false, "compress"),
        _ => (None, true, "identity"),
    };
    let token = if kind == 2 { "x-gzip" } else { token };
    let cased = match w().below(8) {
        0 => token.to_ascii_uppercase(),
        1 if !token.is_empty() => format!("{}{}", token[..1].to_ascii_uppercase(), &token[1..]),
        _ => token.to_string(),
    };
    let token = cased.as_str();
    let mut z = match enc {
        Some(Encoding::Compress) | None => data.clone(),
        Some(e) => encode(e, &data, w().below(7)),
    };
    let supported = known && enc.is_some();

    // Damage.
    let mut damaged = false;
    let mut may_survive = false;
    if supported && w().chance(350) && !z.is_empty() {
        damaged = true;
        if enc == Some(Encoding::Gzip) && w().chance(400) {
            let at = w().below(z.len() as u32) as usize;
            let bit = w().below(8);
            z[at] ^= 1 << bit;
            // Some bits have no influence on the content.
            may_survive = true;
            cover("corrupted");
        } else {
            let keep = if w().chance(300) {
                z.len() - 1 - w().below((z.len() as u32).min(12)) as usize
            } else {
                w().below(z.len() as u32) as usize
            };
            z.truncate(keep);
            cover("truncated");
        }
    }

    // Header form.
    let mut headers: Vec<(&str, String)> = vec![("content-type", "text/plain".to_string())];
    let chunked = w().chance(400);
    let combined;
    if token.is_empty() {
        if chunked {
            headers.push(("transfer-encoding", "chunked".to_string()));
        }
    } else if w().chance(250) {
        combined = if chunked { format!("{}, chunked", token) } else { token.to_string() };
        headers.push(("transfer-encoding", combined));
    } else {
        if chunked {
            headers.push(("transfer-encoding", "chunked".to_string()));
        }
        headers.push(("content-encoding", token.to_string()));
    }
    // Of several encodings that applied last is removed; identity is none.
    if enc.is_some() && w().chance(200) {
        let more = ["identity", "gzip", "deflate", "br", "Identity"][w().below(5) as usize];
        let k = headers.len() - 1;
        match w().below(4) {
            0 | 1 => headers[k].1 = format!("{}, {}", more, headers[k].1),
            2 => {
                let name = headers[k].0;
                headers.insert(k, (name, more.to_string()));
            }
            _ => {
                if more.eq_ignore_ascii_case("identity") {
                    headers[k].1.push_str(",identity");
                } else if headers[k].0 == "transfer-encoding" {
                    headers.push(("content-encoding", more.to_string()));
                }
            }
        }
        cover("several encodings");
    }
    let hs: Vec<(&str, &str)> = headers.iter().map(|(k, v)| (*k, v.as_str())).collect();

    crate::note!("token {} len {} z {} content {:?} damaged {}", token, len, z.len(), c, damaged);
    let body = any_stored(&dir, &z);
    let ram = body.is_ram();
    let mapped = body.is_mem_map();
    let mut d = dialog(body, &hs);
    let before = if w().below(2) == 1 { vec![Encoding::Chunked] } else { Vec::new() };
    d.set_res_decoded(before.clone());

    let mut fl = soft_faults();
    let hard = w().chance(300);
    if hard {
        hard_faults(&mut fl, HARD_FS);
    }
    set_faults(fl);
    let r = decode_res_body(&mut d, &tune.t);
    let faulted = hard && sim().fl.hard_left != u32::MAX;
    no_faults();
    sim().fl.full_next = false;

    match r {
        Ok(done) => {
            check!(known, "undecodable-accepted", "{} accepted", token);
            check!(done == supported, "result", "decoding returned {} for {:?}", done, token);
            let mut list = Vec::new();
            if chunked {
                list.push(Encoding::Chunked);
            }
            if let Some(e) = enc {
                list.push(e);
            }
            list.push(Encoding::Identity);
            check!(*d.res_decoded() == list, "decoded-list", "{:?} instead of {:?}", d.res_decoded(), list);
            if damaged && !may_survive {
                check!(false, "damage-accepted", "{} body of {} bytes cut or corrupted was decoded to {} of {}",
                       token, z.len(), d.res_body().len(), len);
            }
            let b = d.explode().1.res_body;
            if supported {
                if may_survive && b.len() != len as u64 {
                    check!(false, "damage-accepted", "{} body decoded to {} of {} bytes", token, b.len(), len);
                }
                let r = Ok(b);
                judge(&r, len as u64, &tune, false, "decode");
                full_check(Img { b: r.unwrap(), want: data }, false);
                cover("decoded");
            } else {
                full_check(Img { b, want: z }, false);
            }
        }
        Err(e) => {
            match e {
                FutioError::UnsupportedEncoding(_) => {
                    check!(!known, "unexpected-error", "{}: {}", token, e);
                    cover("unsupported");
                }
                FutioError::Body(e) => {
                    check!(supported, "unexpected-error", "{}: {}", token, e);
                    if !damaged {
                        judge(&Err(e), len as u64, &tune, faulted, "decode");
                    }
                }
                e => check!(false, "unexpected-error", "{}: {}", token, e),
            }
            check!(*d.res_decoded() == before, "not-unchanged", "decoded list {:?} after an error, was {:?}",
                   d.res_decoded(), before);
            check!(d.res_body().is_ram() == ram && d.res_body().is_mem_map() == mapped, "not-unchanged",
                   "state of the body changed");
            full_check(Img { b: d.explode().1.res_body, want: z }, false);
            cover("refused");
        }
    }
    describe(format!("{:?} of {} bytes, ram {} max {} damaged {} chunked {}", token, len, tune.ram, tune.max, damaged, chunked));
}
