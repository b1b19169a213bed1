"""Deterministic simulation of the operating systems and SCSI devices under infi.asi."""
