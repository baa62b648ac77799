#!/usr/bin/env python3
"""C01: see properties.jsonl and DESIGN.md."""
import futcheck

if __name__ == "__main__":
    futcheck.main("C01")
