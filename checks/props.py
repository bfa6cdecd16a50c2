"""All properties."""
from . import p_syntax, p_state, p_ops, p_io, p_types, p_more   # noqa: registration
