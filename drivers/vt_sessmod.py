"""importable submodule of the session driver"""
