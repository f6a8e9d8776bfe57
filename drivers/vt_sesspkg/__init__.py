"""importable package of the session driver"""
