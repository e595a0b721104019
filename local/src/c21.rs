//! C21: the message bus. The model and generators are shared with the broker, see hub.rs.
use pbt::Session;

pub fn run(s: &mut Session) {
    crate::hub::run(s, crate::hub::Which::Bus);
}
