"""Model of plotly."""
