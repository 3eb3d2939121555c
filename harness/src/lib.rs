#![allow(clippy::all)]
pub mod sx;
#[cfg(any(sx_c07, sx_c08, sx_c09, sx_c10, sx_c11, sx_c12, sx_c13, sx_c14, sx_c27, sx_c30))]
pub mod shape;
#[cfg(any(sx_c01, sx_c02, sx_c03))]
pub mod pvm;
#[cfg(sx_c01)]
mod c01;
#[cfg(sx_c02)]
mod c02;
#[cfg(sx_c03)]
mod c03;
#[cfg(sx_c04)]
mod c04;
#[cfg(sx_c05)]
mod c05;
#[cfg(sx_c06)]
mod c06;
#[cfg(sx_c07)]
mod c07;
#[cfg(sx_c08)]
mod c08;
#[cfg(sx_c09)]
mod c09;
#[cfg(sx_c10)]
mod c10;
#[cfg(sx_c11)]
mod c11;
#[cfg(sx_c12)]
mod c12;
#[cfg(sx_c13)]
mod c13;
#[cfg(sx_c14)]
mod c14;
#[cfg(sx_c15)]
mod c15;
#[cfg(sx_c16)]
mod c16;
#[cfg(sx_c17)]
mod c17;
#[cfg(sx_c18)]
mod c18;
#[cfg(sx_c19)]
mod c19;
#[cfg(sx_c20)]
mod c20;
#[cfg(sx_c21)]
mod c21;
#[cfg(sx_c22)]
mod c22;
#[cfg(sx_c23)]
mod c23;
#[cfg(sx_c24)]
mod c24;
#[cfg(sx_c25)]
mod c25;
#[cfg(sx_c26)]
mod c26;
#[cfg(sx_c27)]
mod c27;
#[cfg(sx_c28)]
mod c28;
#[cfg(sx_c29)]
mod c29;
#[cfg(sx_c30)]
mod c30;
#[cfg(sx_c31)]
mod c31;
#[cfg(sx_c32)]
mod c32;
