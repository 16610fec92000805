"""Specification tables (from the state diagrams in the headers and doc/)."""

# wsrep::transaction::state
TRX = {
    "s_executing": ("s_preparing", "s_certifying", "s_must_abort", "s_aborting"),
    "s_preparing": ("s_prepared", "s_committing", "s_must_abort"),
    "s_prepared": ("s_certifying", "s_committing", "s_must_abort", "s_aborting"),
    "s_certifying": ("s_executing", "s_preparing", "s_prepared", "s_committing", "s_cert_failed", "s_must_abort"),
    "s_committing": ("s_ordered_commit", "s_committed", "s_must_abort"),
    "s_ordered_commit": ("s_committed",),
    "s_committed": (),
    "s_cert_failed": ("s_aborting",),
    "s_must_abort": ("s_cert_failed", "s_aborting", "s_must_replay"),
    "s_aborting": ("s_aborted",),
    "s_aborted": (),
    "s_must_replay": ("s_replaying",),
    "s_replaying": ("s_preparing", "s_committing", "s_committed", "s_aborted"),
}

# wsrep::client_state::state
CLIENT = {
    "s_none": ("s_idle",),
    "s_idle": ("s_exec", "s_quitting"),
    "s_exec": ("s_result",),
    "s_result": ("s_idle",),
    "s_quitting": ("s_none",),
}

# wsrep::client_state::mode
MODE = {
    "m_undefined": (),
    "m_local": ("m_high_priority", "m_toi", "m_rsu", "m_nbo"),
    "m_high_priority": ("m_local", "m_toi", "m_nbo"),
    "m_toi": ("m_local", "m_high_priority"),
    "m_rsu": ("m_local",),
    "m_nbo": ("m_local", "m_high_priority"),
}

# wsrep::server_state::state
SERVER = {
    "s_disconnected": ("s_initializing", "s_connected"),
    "s_initializing": ("s_disconnected", "s_initialized", "s_disconnecting"),
    "s_initialized": ("s_disconnected", "s_connected", "s_joined", "s_disconnecting"),
    "s_connected": ("s_disconnected", "s_connected", "s_joiner", "s_synced", "s_disconnecting"),
    "s_joiner": ("s_disconnected", "s_initializing", "s_joined", "s_disconnecting"),
    "s_joined": ("s_disconnected", "s_connected", "s_donor", "s_synced", "s_disconnecting"),
    "s_donor": ("s_disconnected", "s_connected", "s_joined", "s_disconnecting"),
    "s_synced": ("s_disconnected", "s_connected", "s_joined", "s_donor", "s_disconnecting"),
    "s_disconnecting": ("s_disconnected",),
}
