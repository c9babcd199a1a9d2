use crate::sup::Prop;

mod p01;
mod p03;
mod p05;
mod p09;
mod p12;
mod p13;
mod p16;
mod p18;
mod p19;
mod p21;
mod p23;
mod p25;
mod p26;

pub fn all() -> Vec<Prop> {
    let mut v = Vec::new();
    v.extend(p01::props());
    v.extend(p03::props());
    v.extend(p05::props());
    v.extend(p09::props());
    v.extend(p12::props());
    v.extend(p13::props());
    v.extend(p16::props());
    v.extend(p18::props());
    v.extend(p19::props());
    v.extend(p21::props());
    v.extend(p23::props());
    v.extend(p25::props());
    v.extend(p26::props());
    v.sort_by_key(|p| p.id);
    v
}
