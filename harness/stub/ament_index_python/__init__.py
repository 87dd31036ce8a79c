"""Offline stand-in for ament_index_python (not installed in this sandbox)."""
from .packages import get_package_prefix, get_package_share_directory  # noqa: F401
