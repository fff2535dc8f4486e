"""Model of ipywidgets."""
import ipywidgets.widgets as widgets
from ipywidgets.widgets import Widget, Layout, Checkbox, FloatText, BoundedFloatText, Dropdown, Button, Box, HBox, VBox
