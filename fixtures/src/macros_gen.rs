//! replaced before every compilation by the output of engine/macrogen.py
