//! Witness types for the derive macros: one instance of every shape the generator supports, so
//! that the generated code is analysed even for shapes the repository's own types do not use.
#![forbid(unsafe_code)]
#![no_std]
#![allow(dead_code)]
#[cfg(feature = "user")]
use safe_discriminant::Discriminant;
#[cfg(feature = "user")]
use tpm2_rs_base::{Tpm2bSimple, Tpm2bStruct};
#[cfg(feature = "user")]
use tpm2_rs_marshalable::{Marshalable, MarshalableVariant, Tpm2bStruct, UnmarshalBuf};
#[cfg(feature = "user")]
use core::mem::size_of;

#[cfg(feature = "user")]
#[derive(Clone, Copy, Marshalable)]
pub struct WNamed {
    pub a: u8,
    pub b: u16,
    pub c: u32,
    pub d: u64,
    pub e: i8,
    pub f: i16,
    pub g: i32,
    pub h: i64,
}
#[cfg(feature = "user")]
#[derive(Clone, Copy, Default, Marshalable)]
pub struct WSmall {
    pub x: u16,
    pub y: u8,
}
#[cfg(feature = "user")]
#[derive(Clone, Copy, Marshalable)]
pub struct WTuple(pub u32, pub u8, pub WSmall, pub u16);
#[cfg(feature = "user")]
#[derive(Clone, Copy, Marshalable)]
pub struct WUnit;
#[cfg(feature = "user")]
#[derive(Clone, Copy, Marshalable)]
pub struct WArrays {
    pub pre: u8,
    pub bytes: [u8; 5],
    pub elems: [WSmall; 3],
    pub post: u16,
}
#[cfg(feature = "user")]
#[derive(Clone, Copy, Marshalable)]
pub struct WLen8 {
    pub pre: u32,
    pub n: u8,
    #[marshalable(length=n)]
    pub items: [u8; 7],
    pub post: u16,
}
#[cfg(feature = "user")]
#[derive(Clone, Copy, Marshalable)]
pub struct WLen16 {
    pub n: u16,
    pub mid: u32,
    #[marshalable(length=n)]
    pub items: [WSmall; 9],
}
#[cfg(feature = "user")]
#[derive(Clone, Copy, Marshalable)]
pub struct WLen32Two {
    pub n: u32,
    #[marshalable(length=n)]
    pub items: [u16; 4],
    pub m: u32,
    #[marshalable(length=m)]
    pub more: [WSmall; 6],
}
#[cfg(feature = "user")]
#[derive(Clone, Copy, Marshalable)]
pub struct WSame(pub u16, pub u16, pub u16, pub u16, pub u16);
#[cfg(feature = "user")]
#[derive(Clone, Copy, Marshalable)]
pub struct WShared {
    pub n: u8,
    pub m: u8,
    #[marshalable(length=m)]
    pub first: [u8; 6],
    #[marshalable(length=n)]
    pub second: [u32; 3],
    #[marshalable(length=n)]
    pub third: [WSmall; 5],
}
#[cfg(feature = "user")]
#[derive(Clone, Copy, Marshalable)]
pub struct WLong {
    pub n: u16,
    #[marshalable(length=n)]
    pub items: [WSmall; 200],
    pub tail: [u32; 2],
}
#[cfg(feature = "user")]
#[derive(Clone, Copy, Marshalable)]
pub struct WWide {
    pub words: [u32; 24],
    pub bytes: [u8; 70],
    pub last: u8,
}
#[cfg(feature = "user")]
#[derive(Clone, Copy, Marshalable)]
pub struct WSigned {
    pub n: i16,
    #[marshalable(length=n)]
    pub items: [u16; 5],
    pub m: u64,
    #[marshalable(length=m)]
    pub more: [u8; 300],
}
#[cfg(feature = "user")]
#[derive(Clone, Copy, Marshalable)]
pub struct WNone {
    pub nothing: [u8; 0],
    pub one: [u64; 1],
}
#[cfg(feature = "user")]
#[repr(C, u16)]
#[derive(Clone, Copy, Discriminant, Marshalable)]
pub enum WEnumMany {
    A(u16, u16, u16) = 1,
    B(u8, WSmall, WLen8, Tpm2bW, u8) = 2,
    C(WSame, WSame) = 0x8000,
    D(u32) = 0xFF01,
    E(u32) = 0x01FF,
}
#[cfg(feature = "user")]
#[repr(C, u64)]
#[derive(Clone, Copy, Discriminant, Marshalable)]
pub enum WEnum64 {
    A(u8) = 0x1_0000_0001,
    B(u8) = 1,
}
#[cfg(feature = "user")]
#[repr(C, u16)]
#[derive(Clone, Copy, Discriminant, Marshalable)]
pub enum WEnum16 {
    A(u8) = 7,
    B(WSmall, u32) = 3,
    C() = 0x100,
    D(WTuple) = 0xFFFF,
}
#[cfg(feature = "user")]
#[repr(C, u32)]
#[derive(Clone, Copy, Discriminant, Marshalable)]
pub enum WEnum32 {
    A(u64) = 0x8000_0001,
    B(WUnit, u8) = 0,
}
#[cfg(feature = "user")]
#[repr(C, u8)]
#[derive(Clone, Copy, Discriminant, Marshalable)]
pub enum WEnum8 {
    A(WEnum16) = 1,
    B(WLen8) = 2,
}
#[cfg(feature = "user")]
#[derive(Clone, Copy, Marshalable)]
#[marshalable(tpm2b_simple)]
pub struct Tpm2bW {
    size: u16,
    buffer: [u8; 11],
}
/// A capacity beyond what the 16-bit length can express.
#[cfg(feature = "user")]
#[derive(Clone, Copy, Marshalable)]
#[marshalable(tpm2b_simple)]
pub struct Tpm2bWHuge {
    size: u16,
    buffer: [u8; 70000],
}
#[cfg(feature = "user")]
#[derive(Clone, Copy, Marshalable, Tpm2bStruct)]
#[marshalable(tpm2b_simple)]
pub struct Tpm2bWStruct {
    size: u16,
    inner: [u8; size_of::<WTuple>()],
}
#[cfg(feature = "user")]
#[derive(Clone, Copy, Marshalable)]
pub struct WNested {
    pub e: WEnum16,
    pub b: Tpm2bW,
    pub l: WLen32Two,
}

/// Server entry points over plain slices, generic in the platform's generator and entropy source.
#[cfg(feature = "server")]
pub mod server {
    use core::marker::PhantomData;
    use tpm2_impl::platform::TpmContextDeps;
    use tpm2_impl::platform::crypto::{Drbg, EntropySource};
    use tpm2_impl::{ServerError, TpmContext};
    pub struct WDeps<D, E>(PhantomData<(D, E)>);
    impl<D: Drbg, E: EntropySource> TpmContextDeps for WDeps<D, E> {
        type Drbg = D;
        type EntropySource = E;
        type Request = [u8];
        type Response = [u8];
    }
    pub fn server_new<D: Drbg, E: EntropySource>() -> Result<TpmContext<WDeps<D, E>>, ServerError> {
        TpmContext::new()
    }
    pub fn server_separate<D: Drbg, E: EntropySource>(
        ctx: &mut TpmContext<WDeps<D, E>>,
        request: &[u8],
        response: &mut [u8],
    ) -> usize {
        ctx.execute_command_separate(request, response)
    }
    pub fn server_in_place<D: Drbg, E: EntropySource>(
        ctx: &mut TpmContext<WDeps<D, E>>,
        in_out: &mut [u8],
        request_size: usize,
    ) -> usize {
        ctx.execute_command_in_place(in_out, request_size)
    }
}

/// Client entry points with zero to three sessions, generic in command, connection and sessions.
#[cfg(feature = "client")]
pub mod client {
    use tpm2_client::connection::Connection;
    use tpm2_client::sessions::{PasswordSession, Session};
    use tpm2_client::{run_command, run_command_with_handles};
    use tpm2_rs_base::commands::TpmCommand;
    use tpm2_rs_base::errors::{TpmRcResult, TssError, TssResult};
    use tpm2_rs_base::{TpmsAuthCommand, TpmsAuthResponse};
    pub fn client_default<C: TpmCommand, T: Connection<Error: From<TssError>>>(
        cmd: &C,
        tpm: &mut T,
    ) -> Result<C::RespT, T::Error> {
        run_command(cmd, tpm)
    }
    pub fn client_s0<C: TpmCommand, T: Connection<Error: From<TssError>>>(
        cmd: &C,
        handles: C::Handles,
        tpm: &mut T,
    ) -> Result<(C::RespT, C::RespHandles), T::Error> {
        run_command_with_handles(cmd, handles, (), tpm)
    }
    pub fn client_s1<C: TpmCommand, T: Connection<Error: From<TssError>>, X: Session>(
        cmd: &C,
        handles: C::Handles,
        s: X,
        tpm: &mut T,
    ) -> Result<(C::RespT, C::RespHandles), T::Error> {
        run_command_with_handles(cmd, handles, s, tpm)
    }
    pub fn client_s2<C: TpmCommand, T: Connection<Error: From<TssError>>, X: Session, Y: Session>(
        cmd: &C,
        handles: C::Handles,
        s: (X, Y),
        tpm: &mut T,
    ) -> Result<(C::RespT, C::RespHandles), T::Error> {
        run_command_with_handles(cmd, handles, s, tpm)
    }
    pub fn client_s3<
        C: TpmCommand,
        T: Connection<Error: From<TssError>>,
        X: Session,
        Y: Session,
        Z: Session,
    >(
        cmd: &C,
        handles: C::Handles,
        s: (X, Y, Z),
        tpm: &mut T,
    ) -> Result<(C::RespT, C::RespHandles), T::Error> {
        run_command_with_handles(cmd, handles, s, tpm)
    }
    pub fn password_auth(password: &[u8]) -> TpmRcResult<TpmsAuthCommand> {
        Ok(PasswordSession::new(password)?.get_auth_command())
    }
    pub fn password_secret(password: &[u8], i: usize) -> TpmRcResult<Option<u8>> {
        let p = PasswordSession::new(password)?;
        let s = p.get_secret();
        Ok(if i < s.len() { Some(s[i]) } else { None })
    }
    pub fn password_validate(s: &PasswordSession, r: &TpmsAuthResponse) -> TssResult<()> {
        s.validate_auth_response(r)
    }
}
