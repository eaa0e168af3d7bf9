@module svglit
@use base text xml
@code
@literals svg
