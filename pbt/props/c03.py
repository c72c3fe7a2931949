from ..equiv import register

register("C03", "sep")
