from ..types import *
