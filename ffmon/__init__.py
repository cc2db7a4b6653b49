"""ffmon: runtime-monitoring harness for Qualcomm-AI-research/fastforward (see DESIGN.md)."""
