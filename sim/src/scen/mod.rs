pub mod arc;
pub mod arc2;
pub mod asy;
pub mod body;
pub mod cmd;
pub mod decode;
pub mod form;
pub mod logs;
pub mod net;
pub mod serve;
pub mod share;
pub mod source;
pub mod util;

pub struct Scenario {
    pub id: &'static str,
    pub run: fn(),
    /// Runs of the quick tier.
    pub quick: u64,
    pub level: &'static str,
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
    pub notes: &'static [&'static str],
    /// Needs the command line program.
    pub cli: bool,
}

pub static ALL: &[Scenario] = &[
    body::C01, body::C02, source::C03, source::C04, share::C05, share::C06,
    arc::C07, arc2::C08, arc2::C09, arc2::C10, arc2::C11,
    asy::C12, asy::C13, asy::C14, asy::C15,
    decode::C16, net::C17, cmd::C18, net::C19, logs::C20, serve::C21, form::C22,
];
