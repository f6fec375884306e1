//! Functions and types without meaning of their own: "some transport", "some payload", "some callback".
use super::*;

pub struct AnyReader(pub u64);
pub struct AnyWriter(pub u64);
pub struct AnyStream(pub u64);
pub struct AnyListener(pub u64);
#[derive(Debug)]
pub struct AnyAddr(pub u64);
#[derive(Debug)]
pub struct AnyRemote(pub u64);
pub struct AnyOpts(pub u64);
pub struct AnyOpts2(pub u64);
pub struct AnyPayload(pub u64);
pub struct AnyPayload2(pub u64);
pub struct AnyFrom(pub u64);
pub struct AnyFrom2(pub u64);
pub struct AnyData(pub u64);
pub struct AnyProvider;
pub struct AnyShared(pub u64);
pub struct AnyKey;
impl TypeMapKey for AnyKey { type Value = AnyShared; }

impl Clone for AnyData { fn clone(&self) -> Self { unimplemented!() } }
impl Clone for AnyAddr { fn clone(&self) -> Self { unimplemented!() } }
impl Clone for AnyOpts { fn clone(&self) -> Self { unimplemented!() } }
impl Clone for AnyOpts2 { fn clone(&self) -> Self { unimplemented!() } }
impl Default for AnyOpts { fn default() -> Self { unimplemented!() } }
impl Default for AnyOpts2 { fn default() -> Self { unimplemented!() } }

impl AsyncRead for AnyReader {
    fn poll_read(self: Pin<&mut Self>, _: &mut std::task::Context<'_>, _: &mut ReadBuf<'_>) -> Poll<io::Result<()>> { unimplemented!() }
}
impl AsyncWrite for AnyWriter {
    fn poll_write(self: Pin<&mut Self>, _: &mut std::task::Context<'_>, _: &[u8]) -> Poll<io::Result<usize>> { unimplemented!() }
    fn poll_flush(self: Pin<&mut Self>, _: &mut std::task::Context<'_>) -> Poll<io::Result<()>> { unimplemented!() }
    fn poll_shutdown(self: Pin<&mut Self>, _: &mut std::task::Context<'_>) -> Poll<io::Result<()>> { unimplemented!() }
}
impl AsyncRead for AnyStream {
    fn poll_read(self: Pin<&mut Self>, _: &mut std::task::Context<'_>, _: &mut ReadBuf<'_>) -> Poll<io::Result<()>> { unimplemented!() }
}
impl AsyncWrite for AnyStream {
    fn poll_write(self: Pin<&mut Self>, _: &mut std::task::Context<'_>, _: &[u8]) -> Poll<io::Result<usize>> { unimplemented!() }
    fn poll_flush(self: Pin<&mut Self>, _: &mut std::task::Context<'_>) -> Poll<io::Result<()>> { unimplemented!() }
    fn poll_shutdown(self: Pin<&mut Self>, _: &mut std::task::Context<'_>) -> Poll<io::Result<()>> { unimplemented!() }
}
impl AsyncProtocolStreamSplit for AnyStream {
    type OwnedSplitReadHalf = AnyReader;
    type OwnedSplitWriteHalf = AnyWriter;
    fn protocol_into_split(self) -> (AnyReader, AnyWriter) { unimplemented!() }
}
#[async_trait]
impl AsyncProtocolStream for AnyStream {
    type AddressType = AnyAddr;
    type StreamOptions = AnyOpts2;
    async fn protocol_connect(_: AnyAddr, _: AnyOpts2) -> IPCResult<Self> { unimplemented!() }
}
#[async_trait]
impl AsyncStreamProtocolListener for AnyListener {
    type AddressType = AnyAddr;
    type RemoteAddressType = AnyRemote;
    type Stream = AnyStream;
    type ListenerOptions = AnyOpts;
    async fn protocol_bind(_: AnyAddr, _: AnyOpts) -> IPCResult<Self> { unimplemented!() }
    async fn protocol_accept(&self) -> IPCResult<(AnyStream, AnyRemote)> { unimplemented!() }
}
impl IntoPayload for AnyPayload { fn into_payload(self, _: &Context) -> IPCResult<Bytes> { unimplemented!() } }
impl IntoPayload for AnyPayload2 { fn into_payload(self, _: &Context) -> IPCResult<Bytes> { unimplemented!() } }
impl FromPayload for AnyFrom { fn from_payload<R: Read>(_: R) -> IPCResult<Self> { unimplemented!() } }
impl FromPayload for AnyFrom2 { fn from_payload<R: Read>(_: R) -> IPCResult<Self> { unimplemented!() } }
impl serde::Serialize for AnyData { fn serialize<S: serde::Serializer>(&self, _: S) -> Result<S::Ok, S::Error> { unimplemented!() } }
impl<'de> serde::Deserialize<'de> for AnyData { fn deserialize<D: serde::Deserializer<'de>>(_: D) -> Result<Self, D::Error> { unimplemented!() } }
impl NamespaceProvider for AnyProvider {
    fn name() -> &'static str { unimplemented!() }
    fn register(_: &mut EventHandler) { unimplemented!() }
}
pub type BoxRes<'a> = Pin<Box<dyn Future<Output = IPCResult<Response>> + Send + 'a>>;
pub fn any_cb1<'a>(_: &'a Context, _: Event) -> BoxRes<'a> { unimplemented!() }
pub fn any_cb2<'a>(_: &'a Context, _: Event) -> BoxRes<'a> { unimplemented!() }
