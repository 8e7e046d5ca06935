@area tupeq
@include circuit
