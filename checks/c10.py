#!/usr/bin/env python3
"""C10: see properties.jsonl and DESIGN.md."""
import futcheck

if __name__ == "__main__":
    futcheck.main("C10")
