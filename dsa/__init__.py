"""docket static analysis: an effect-trace analysis over Python and Lua sources."""
