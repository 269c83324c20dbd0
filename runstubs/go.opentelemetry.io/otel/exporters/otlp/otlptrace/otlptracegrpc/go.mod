module go.opentelemetry.io/otel/exporters/otlp/otlptrace/otlptracegrpc

go 1.25.0
