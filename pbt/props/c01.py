from ..equiv import register

register("C01", "lift")
