//! Puts a verifier into its last state.
use super::*;
pub fn committed(ctx: Context, mux_handle: Handle, config: VerifierConfig, state: state::Committed) -> Verifier<state::Committed> {
    Verifier { config, span: Span::none(), ctx: Some(ctx), mux_handle, state }
}
pub fn handshake(v: &Verifier<state::Verify>) -> bool {
    v.state.handshake.is_some()
}
