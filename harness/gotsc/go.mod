module github.com/dterei/gotsc
