//! Sees what is private to the prover: puts one into its last state, and lets it lie.
use super::*;
pub fn committed(ctx: Context, mux_handle: Handle, state: state::Committed) -> Prover<state::Committed> {
    Prover { config: ProverConfig::builder().build().unwrap(), span: Span::none(), ctx: Some(ctx), mux_handle, state }
}
/// Sends the message and, if it is accepted, proves as the configuration says over the transcript.
pub async fn lie(p: &mut Prover<state::Committed>, msg: ProveRequestMsg, with: Option<(&ProveConfig, &Transcript)>) -> Result<Option<tlsn_core::ProverOutput>> {
    let ctx = p.ctx.as_mut().unwrap();
    ctx.io_mut().send(msg).await.unwrap();
    let Ok(r) = ctx.io_mut().expect_next::<Response>().await else { return Err(Error::io()) };
    if r.result.is_err() {
        return Err(Error::user());
    }
    let Some((config, transcript)) = with else { return Ok(None) };
    let state::Committed { vm, keys, tls_transcript, .. } = &mut p.state;
    Ok(Some(prove::prove(ctx, vm, keys, transcript, tls_transcript, config).await?))
}
/// Asks for a commitment as another version of the software.
pub async fn ask(mut p: Prover<state::Initialized>, config: TlsCommitConfig, version: &str) -> Result<()> {
    let mut ctx = p.ctx.take().unwrap();
    ctx.io_mut().send(TlsCommitRequestMsg { config, version: semver::Version::parse(version).unwrap() }).await.map_err(|_| Error::io())?;
    let r = ctx.io_mut().expect_next::<Response>().await.map_err(|_| Error::io())?;
    r.result.map_err(|_| Error::user())
}

// ---- a prover which speaks for itself on the proxied connection ----
use crate::{PROXY_STREAM_PREFIX, deps::ProverProxyDeps, proxy::{ProxyProver, TlsBytes}, tag::verify_tags};
/// Opens the proxied connection.
pub fn open(p: Prover<state::CommitAccepted<Proxy>>) -> (Box<ProxyProver>, Stream, Handle) {
    let ProverDeps::Proxy(ProverProxyDeps { prover, id }) = p.state.deps else { unreachable!() };
    let mut name = PROXY_STREAM_PREFIX.to_vec();
    name.extend_from_slice(id.as_bytes());
    let s = p.mux_handle.new_stream(&name).unwrap();
    (prover, s, p.mux_handle)
}
/// Goes through the end of the session with that master secret and that view of what passed.
pub async fn finish(prover: Box<ProxyProver>, mux: Handle, ms: Vec<u8>, view: [Vec<u8>; 4], name: ServerName) -> Result<Prover<state::Committed>> {
    let [tls_sent, tls_recv, app_sent, app_recv] = view;
    let (mut ctx, mut vm, out) = prover.finalize(ms, 7, TlsBytes { tls_sent, tls_recv, app_sent, app_recv }).await?;
    let crate::TlsOutput { keys, tls_transcript } = out;
    let _ = verify_tags(&mut vm, (keys.server_write_key, keys.server_write_iv), keys.server_write_mac_key, tls_transcript.version(), tls_transcript.recv().to_vec())
        .map_err(|_| Error::internal())?;
    vm.execute_all(&mut ctx).await.map_err(|_| Error::internal())?;
    let transcript = tls_transcript.to_transcript().map_err(|_| Error::internal())?;
    Ok(committed(ctx, mux, state::Committed { vm, server_name: name, keys, tls_transcript, transcript }))
}
