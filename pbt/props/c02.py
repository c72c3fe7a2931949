from ..equiv import register

register("C02", "full")
