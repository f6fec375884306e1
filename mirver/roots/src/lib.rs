//! Entry points of the proof: monomorphic functions over bromine's public API, and harness types whose methods
//! are `opq::*` functions without body (the verifier gives them the contract of the trait they implement).
#![allow(clippy::all, unused)]
use async_trait::async_trait;
use bromine::bytes::Bytes;
use bromine::context::{Context, PoolGuard, PooledContext};
use bromine::error_event::ErrorEventData;
use bromine::event::{Event, EventType};
use bromine::event_handler::{EventHandler, Response};
use bromine::ipc::client::IPCClient;
use bromine::ipc::server::IPCServer;
use bromine::ipc::stream_emitter::emit_metadata::EmitMetadata;
use bromine::ipc::stream_emitter::emit_metadata_with_response::EmitMetadataWithResponse;
use bromine::ipc::stream_emitter::emit_metadata_with_response_stream::EmitMetadataWithResponseStream;
use bromine::ipc::stream_emitter::ResponseStream;
use bromine::callback;
use bromine::namespace::Namespace;
use bromine::payload::*;
use bromine::prelude::{IPCBuilder, IPCResult, NamespaceBuilder, NamespaceProvider};
use bromine::trait_bound_typemap::{SendSyncTypeMap, TypeMapKey};
use bromine::protocol::encrypted::*;
use bromine::protocol::*;
use futures_core::Stream;
use std::future::Future;
use std::io::{self, Read};
use std::pin::Pin;
use std::task::Poll;
use std::time::Duration;
use tokio::io::{AsyncRead, AsyncWrite, ReadBuf};

pub mod conform;
pub mod opq;
use opq::*;

// ---- events
pub fn root_encode(e: Event) -> IPCResult<Bytes> { e.into_bytes() }
pub fn root_decode(r: &mut AnyReader) -> impl Future<Output = IPCResult<Event>> + '_ { Event::from_async_read(r) }
pub fn root_initiator(ns: Option<String>, n: String, d: Bytes) -> Event { Event::initiator(ns, n, d) }
pub fn root_response(ns: Option<String>, n: String, d: Bytes, r: u64) -> Event { Event::response(ns, n, d, r) }
pub fn root_error(ns: Option<String>, n: String, d: Bytes, r: u64) -> Event { Event::error(ns, n, d, r) }
pub fn root_end(ns: Option<String>, n: String, d: Bytes, r: u64) -> Event { Event::end(ns, n, d, r) }
pub fn root_ev_id(e: &Event) -> u64 { e.id() }
pub fn root_ev_type(e: &Event) -> EventType { e.event_type() }
pub fn root_ev_ref(e: &Event) -> Option<u64> { e.reference_id() }
pub fn root_ev_ns(e: &Event) -> &Option<String> { e.namespace() }
pub fn root_ev_name(e: &Event) -> &str { e.name() }
pub fn root_ev_data(e: &Event) -> &[u8] { e.data_raw() }
pub fn root_ev_payload(e: &Event) -> IPCResult<AnyFrom> { e.payload::<AnyFrom>() }
pub fn root_ev_bytes(e: &Event) -> IPCResult<BytePayload> { e.payload::<BytePayload>() }

// ---- payloads
pub fn root_byte_into(p: BytePayload, c: &Context) -> IPCResult<Bytes> { p.into_payload(c) }
pub fn root_byte_new(v: Vec<u8>) -> BytePayload { BytePayload::new(v) }
pub fn root_byte_from_bytes(v: Bytes) -> BytePayload { BytePayload::from(v) }
pub fn root_byte_inner(p: BytePayload) -> Vec<u8> { p.into_inner() }
pub fn root_byte_bytes(p: BytePayload) -> Bytes { p.into_bytes() }
pub fn root_byte_from(b: &[u8]) -> IPCResult<BytePayload> { BytePayload::from_payload(b) }
pub fn root_tandem_into(a: AnyPayload, b: AnyPayload2, c: &Context) -> IPCResult<Bytes> { TandemPayload::new(a, b).into_payload(c) }
pub fn root_tandem_from(b: &[u8]) -> IPCResult<TandemPayload<AnyFrom, AnyFrom2>> { TandemPayload::from_payload(b) }
pub fn root_tandem_inner(t: TandemPayload<AnyFrom, AnyFrom2>) -> (AnyFrom, AnyFrom2) { t.into_inner() }
pub fn root_err_into(e: ErrorEventData, c: &Context) -> IPCResult<Bytes> { e.into_payload(c) }
pub fn root_err_from(b: &[u8]) -> IPCResult<ErrorEventData> { ErrorEventData::from_payload(b) }
pub fn root_serde_into(s: DynamicSerializer, d: AnyData, c: &Context) -> IPCResult<Bytes> { SerdePayload::new(s, d).into_payload(c) }
pub fn root_serde_clone(s: DynamicSerializer, d: AnyData, c: &Context) -> IPCResult<Bytes> { let p = SerdePayload::new(s, d); let q = p.clone(); drop(p); q.into_payload(c) }
pub fn root_serde_try(s: DynamicSerializer, d: AnyData) -> IPCResult<Bytes> { SerdePayload::new(s, d).try_into_bytes() }
pub fn root_serde_default(d: AnyData, c: &Context) -> IPCResult<Bytes> { d.into_payload(c) }
pub fn root_serde_create(d: AnyData, c: &Context) -> IPCResult<Bytes> { c.create_serde_payload(d).into_payload(c) }
pub fn root_serde_from(b: &[u8]) -> IPCResult<SerdePayload<AnyData>> { SerdePayload::<AnyData>::from_payload(b) }
pub fn root_serde_data(p: SerdePayload<AnyData>) -> AnyData { p.data() }
pub fn root_serde_value(b: &[u8]) -> IPCResult<AnyData> { AnyData::from_payload(b) }
pub fn root_serde_first() -> DynamicSerializer { DynamicSerializer::first_available() }
pub fn root_serde_prim(n: usize) -> SerializationResult<DynamicSerializer> { DynamicSerializer::from_primitive(n) }
pub fn root_response_payload(c: &Context, p: AnyPayload) -> IPCResult<Response> { Response::payload(c, p) }
pub fn root_ctx_response(c: &Context, p: AnyPayload) -> IPCResult<Response> { c.response(p) }
pub fn root_response_empty() -> Response { Response::empty() }

// ---- emitting
pub fn root_emit(c: &Context, n: &str, p: AnyPayload) -> EmitMetadata<AnyPayload> { c.emit(n, p) }
pub fn root_emit_to(c: &Context, ns: &str, n: &str, p: AnyPayload) -> EmitMetadata<AnyPayload> { c.emit_to(ns, n, p) }
pub fn root_emit_poll(f: &mut EmitMetadata<AnyPayload>, cx: &mut std::task::Context<'_>) -> Poll<IPCResult<u64>> { Pin::new(f).poll(cx) }
pub fn root_await_reply(f: EmitMetadata<AnyPayload>) -> EmitMetadataWithResponse<AnyPayload> { f.await_reply() }
pub fn root_await_reply_t(f: EmitMetadata<AnyPayload>, t: Duration) -> EmitMetadataWithResponse<AnyPayload> { f.await_reply().with_timeout(t) }
pub fn root_await_reply_tt(f: EmitMetadata<AnyPayload>, t1: Duration, t: Duration) -> EmitMetadataWithResponse<AnyPayload> { f.await_reply().with_timeout(t1).with_timeout(t) }
pub fn root_reply_poll(f: &mut EmitMetadataWithResponse<AnyPayload>, cx: &mut std::task::Context<'_>) -> Poll<IPCResult<Event>> { Pin::new(f).poll(cx) }
pub fn root_stream_replies(f: EmitMetadata<AnyPayload>) -> EmitMetadataWithResponseStream<AnyPayload> { f.stream_replies() }
pub fn root_stream_replies_t(f: EmitMetadata<AnyPayload>, t: Duration) -> EmitMetadataWithResponseStream<AnyPayload> { f.stream_replies().with_timeout(t) }
pub fn root_stream_replies_tt(f: EmitMetadata<AnyPayload>, t1: Duration, t: Duration) -> EmitMetadataWithResponseStream<AnyPayload> { f.stream_replies().with_timeout(t1).with_timeout(t) }
pub fn root_stream_poll(f: &mut EmitMetadataWithResponseStream<AnyPayload>, cx: &mut std::task::Context<'_>) -> Poll<IPCResult<ResponseStream>> { Pin::new(f).poll(cx) }
pub fn root_stream_next(f: &mut ResponseStream, cx: &mut std::task::Context<'_>) -> Poll<Option<IPCResult<Event>>> { Pin::new(f).poll_next(cx) }

// ---- handlers
pub fn root_on(h: &mut EventHandler, n: &str) { h.on(n, |c, e| any_cb1(c, e)) }
pub fn root_on2(h: &mut EventHandler, n: &str) { h.on(n, |c, e| any_cb2(c, e)) }
pub fn root_events(h: &mut EventHandler, n1: &str, n2: &str) { bromine::events!(h, n1 => any_cb1, n2 => any_cb2); }
pub fn root_events_path(h: &mut EventHandler, n1: &str, n2: &str) { bromine::events!(h, n1 => opq::any_cb1, n2 => opq::any_cb2); }
pub fn root_callback(h: &mut EventHandler, n1: &str, n2: &str) {
    h.on(n1, bromine::callback!(ctx, event, any_cb1(ctx, event)));
    h.on(n2, bromine::callback!(opq::any_cb2))
}
pub fn root_namespace() -> Namespace { bromine::namespace!(AnyProvider) }
pub fn root_handler_new() -> EventHandler { EventHandler::new() }
pub fn root_handle<'a>(h: &'a EventHandler, c: &'a Context, e: Event) -> impl Future<Output = IPCResult<Response>> + 'a { h.handle_event(c, e) }

// ---- builder, client, server
pub fn root_b_new() -> IPCBuilder<AnyListener> { IPCBuilder::<AnyListener>::new() }
pub fn root_b_default() -> IPCBuilder<AnyListener> { Default::default() }
pub fn root_b_address(b: IPCBuilder<AnyListener>, a: AnyAddr) -> IPCBuilder<AnyListener> { b.address(a) }
pub fn root_b_timeout(b: IPCBuilder<AnyListener>, a: Duration) -> IPCBuilder<AnyListener> { b.timeout(a) }
pub fn root_b_serializer(b: IPCBuilder<AnyListener>, a: DynamicSerializer) -> IPCBuilder<AnyListener> { b.default_serializer(a) }
pub fn root_b_sopt(b: IPCBuilder<AnyListener>, a: AnyOpts) -> IPCBuilder<AnyListener> { b.server_options(a) }
pub fn root_b_copt(b: IPCBuilder<AnyListener>, a: AnyOpts2) -> IPCBuilder<AnyListener> { b.client_options(a) }
pub fn root_b_on(b: IPCBuilder<AnyListener>, n: &str) -> IPCBuilder<AnyListener> { b.on(n, |c, e| any_cb1(c, e)) }
pub fn root_b_insert(b: IPCBuilder<AnyListener>, v: AnyShared) -> IPCBuilder<AnyListener> { b.insert::<AnyKey>(v) }
pub fn root_b_insert_all(b: IPCBuilder<AnyListener>, m: SendSyncTypeMap) -> IPCBuilder<AnyListener> { b.insert_all(m) }
pub fn root_b_ns(b: IPCBuilder<AnyListener>, n: Namespace) -> IPCBuilder<AnyListener> { b.add_namespace(n) }
pub fn root_b_nsb(b: IPCBuilder<AnyListener>, n: &str) -> NamespaceBuilder<AnyListener> { b.namespace(n) }
pub fn root_nsb_on(b: NamespaceBuilder<AnyListener>, n: &str) -> NamespaceBuilder<AnyListener> { b.on(n, |c, e| any_cb1(c, e)) }
pub fn root_nsb_build(b: NamespaceBuilder<AnyListener>) -> IPCBuilder<AnyListener> { b.build() }
pub fn root_ns_provider() -> Namespace { Namespace::from_provider::<AnyProvider>() }
pub fn root_ns_name(n: &Namespace) -> &String { n.name() }
pub fn root_build_server(b: IPCBuilder<AnyListener>) -> impl Future<Output = IPCResult<()>> { b.build_server() }
pub fn root_build_client(b: IPCBuilder<AnyListener>) -> impl Future<Output = IPCResult<Context>> { b.build_client() }
pub fn root_build_pool(b: IPCBuilder<AnyListener>, n: usize) -> impl Future<Output = IPCResult<PooledContext>> { b.build_pooled_client(n) }
pub fn root_connect(c: IPCClient, a: AnyAddr, o: AnyOpts2) -> impl Future<Output = IPCResult<Context>> { c.connect::<AnyStream>(a, o) }
pub fn root_start(s: IPCServer, a: AnyAddr, o: AnyOpts) -> impl Future<Output = IPCResult<()>> { s.start::<AnyListener>(a, o) }
pub fn root_stop(c: Context) -> impl Future<Output = IPCResult<()>> { c.stop() }
pub fn root_clone_ctx(c: &Context) -> Context { c.clone() }

// ---- pool
pub fn root_pool_acquire(p: &PooledContext) -> PoolGuard<Context> { p.acquire() }
pub fn root_pool_clone(p: &PoolGuard<Context>) -> PoolGuard<Context> { p.clone() }
pub fn root_pool_drop(p: PoolGuard<Context>) { drop(p) }
pub fn root_pool_deref(p: &PoolGuard<Context>) -> &Context { &*p }
pub fn root_pool_deref_mut(p: &mut PoolGuard<Context>) -> &mut Context { &mut *p }
pub fn root_poolctx_clone(p: &PooledContext) -> PooledContext { p.clone() }

// ---- encryption
pub fn root_enc_new(s: AnyStream, k: x25519_dalek::SharedSecret) -> EncryptedStream<AnyStream> { EncryptedStream::new(s, k) }
pub fn root_enc_update(s: &mut EncryptedStream<AnyStream>, k: Bytes) { s.update_key(k) }
pub fn root_enc_read(s: &mut EncryptedReadStream<AnyReader>, cx: &mut std::task::Context<'_>, b: &mut ReadBuf<'_>) -> Poll<io::Result<()>> { Pin::new(s).poll_read(cx, b) }
pub fn root_enc_write(s: &mut EncryptedWriteStream<AnyWriter>, cx: &mut std::task::Context<'_>, b: &[u8]) -> Poll<io::Result<usize>> { Pin::new(s).poll_write(cx, b) }
pub fn root_enc_flush(s: &mut EncryptedWriteStream<AnyWriter>, cx: &mut std::task::Context<'_>) -> Poll<io::Result<()>> { Pin::new(s).poll_flush(cx) }
pub fn root_enc_shutdown(s: &mut EncryptedWriteStream<AnyWriter>, cx: &mut std::task::Context<'_>) -> Poll<io::Result<()>> { Pin::new(s).poll_shutdown(cx) }
pub fn root_encs_read(s: &mut EncryptedStream<AnyStream>, cx: &mut std::task::Context<'_>, b: &mut ReadBuf<'_>) -> Poll<io::Result<()>> { Pin::new(s).poll_read(cx, b) }
pub fn root_encs_write(s: &mut EncryptedStream<AnyStream>, cx: &mut std::task::Context<'_>, b: &[u8]) -> Poll<io::Result<usize>> { Pin::new(s).poll_write(cx, b) }
pub fn root_encs_flush(s: &mut EncryptedStream<AnyStream>, cx: &mut std::task::Context<'_>) -> Poll<io::Result<()>> { Pin::new(s).poll_flush(cx) }
pub fn root_encs_shutdown(s: &mut EncryptedStream<AnyStream>, cx: &mut std::task::Context<'_>) -> Poll<io::Result<()>> { Pin::new(s).poll_shutdown(cx) }
pub fn root_encs_split(s: EncryptedStream<AnyStream>) -> (EncryptedReadStream<AnyReader>, EncryptedWriteStream<AnyWriter>) { s.protocol_into_split() }
pub fn root_kx_server(s: AnyStream, k: &Keys) -> impl Future<Output = IPCResult<EncryptedStream<AnyStream>>> + '_ { EncryptedStream::from_server_key_exchange(s, k) }
pub fn root_kx_client(s: AnyStream, k: &Keys) -> impl Future<Output = IPCResult<EncryptedStream<AnyStream>>> + '_ { EncryptedStream::from_client_key_exchange(s, k) }
pub fn root_enc_accept(l: &EncryptedListener<AnyListener>) -> impl Future<Output = IPCResult<(EncryptedStream<AnyStream>, AnyRemote)>> + '_ { l.protocol_accept() }
pub fn root_enc_bind(a: AnyAddr, o: EncryptionOptions<AnyOpts>) -> impl Future<Output = IPCResult<EncryptedListener<AnyListener>>> { <EncryptedListener<AnyListener> as AsyncStreamProtocolListener>::protocol_bind(a, o) }
pub fn root_enc_connect(a: AnyAddr, o: EncryptionOptions<AnyOpts2>) -> impl Future<Output = IPCResult<EncryptedStream<AnyStream>>> { <EncryptedStream<AnyStream> as AsyncProtocolStream>::protocol_connect(a, o) }
pub fn root_enc_opts() -> EncryptionOptions<AnyOpts> { Default::default() }

// ---- the built-in transports
pub fn root_tcp_bind(a: std::net::SocketAddr, o: tcp::TcpOptions) -> impl Future<Output = IPCResult<tokio::net::TcpListener>> { <tokio::net::TcpListener as AsyncStreamProtocolListener>::protocol_bind(a, o) }
pub fn root_tcp_accept(l: &tokio::net::TcpListener) -> impl Future<Output = IPCResult<(tokio::net::TcpStream, std::net::SocketAddr)>> + '_ { l.protocol_accept() }
pub fn root_tcp_connect(a: std::net::SocketAddr, o: tcp::TcpOptions) -> impl Future<Output = IPCResult<tokio::net::TcpStream>> { <tokio::net::TcpStream as AsyncProtocolStream>::protocol_connect(a, o) }
pub fn root_tcp_split(s: tokio::net::TcpStream) -> (tokio::net::tcp::OwnedReadHalf, tokio::net::tcp::OwnedWriteHalf) { s.protocol_into_split() }
pub fn root_unix_bind(a: std::path::PathBuf) -> impl Future<Output = IPCResult<tokio::net::UnixListener>> { <tokio::net::UnixListener as AsyncStreamProtocolListener>::protocol_bind(a, ()) }
pub fn root_unix_accept(l: &tokio::net::UnixListener) -> impl Future<Output = IPCResult<(tokio::net::UnixStream, tokio::net::unix::SocketAddr)>> + '_ { l.protocol_accept() }
pub fn root_unix_connect(a: std::path::PathBuf) -> impl Future<Output = IPCResult<tokio::net::UnixStream>> { <tokio::net::UnixStream as AsyncProtocolStream>::protocol_connect(a, ()) }
pub fn root_unix_split(s: tokio::net::UnixStream) -> (tokio::net::unix::OwnedReadHalf, tokio::net::unix::OwnedWriteHalf) { s.protocol_into_split() }
