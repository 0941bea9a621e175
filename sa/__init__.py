"""Static analyser for ros2/launch: program model + path-sensitive abstract interpreter."""
